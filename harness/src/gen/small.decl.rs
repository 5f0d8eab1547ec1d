#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct S1(pub String, pub [BTreeMap<char, u128>; 0], pub u8, pub BTreeSet<u32>, pub f64, pub IpAddr);
#[derive(Clone, Readable, Writable)] pub struct S2 { pub out: [IpAddr; 3], pub x: u32, pub id: char }
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S3;
#[derive(Clone, Readable, Writable)] pub enum E4<'a> { V0(i32, NonZeroU32), V1, V2(BTreeSet<u8>, [Cow<'a, BTreeSet<u16>>; 2]) }
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S5 { pub flags: i16, pub slice: u8 }
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S6(pub i16, pub i16);
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct S7(pub i8);
#[derive(Clone, Copy, Readable, Writable)] #[repr(C, packed)] pub struct S8 { pub slice: u8, pub flags: u8, pub value: u8, pub key: u8 }
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(transparent)] pub struct S9(pub i16);
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S10 { pub len: [u16; 2], pub name: [u16; 2], pub tag: u16, pub rest: [u16; 2], pub t1: [u16; 2] }
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S11 { pub name: i32, pub id: i32 }
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S12(pub u8, pub u8, pub u8, pub u8, pub u8);
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct S13(pub [u32; 2], pub [u8; 3], pub u64, pub u16, pub u16);
#[derive(Clone, Copy, Readable, Writable)] pub struct Q14 { pub error: u8, pub size: u8, pub count: u16 }
#[derive(Clone, Copy, Readable, Writable)] pub struct Q15 { pub y: u16, pub result: u8, pub count: u8 }
#[derive(Clone, Copy, Readable, Writable)] pub struct Q16(pub u8, pub u16, pub u8);
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct Q17 { pub result: u8, pub id: u32, pub count: u8, pub b: u32, pub bytes: u16 }
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] #[speedy(unsafe_is_primitive = always)] pub struct S18 { pub kind: u32, pub reader: u32, pub id: u32 }
#[derive(Clone, Readable, Writable)] pub struct S19 { pub data: u8, pub bytes: Option<i8>, pub r#type: u32, pub flags: u8, #[speedy(length = ..)] pub name: Vec<i128> }
#[derive(Clone, Readable, Writable)] pub struct S20(#[speedy(length_type = u32)] pub BTreeSet<u64>, pub i16, #[speedy(length_type = u7)] pub Vec<BTreeMap<String, u64>>, #[speedy(length = ..)] pub Vec<char>);
#[derive(Clone, Readable, Writable)] pub struct S21(#[speedy(varint)] pub u64, pub u8, #[speedy(length = t1 / 3)] pub BTreeSet<u64>, #[speedy(length_type = u64_varint)] pub Option<Vec<u64>>);
#[derive(Clone, Readable, Writable)] pub struct S22<'a> { pub a: String, #[speedy(length_type = u32)] pub error: Cow<'a, BTreeMap<u16, u8>> }
#[derive(Clone, Readable, Writable)] pub struct L23(#[speedy(length_type = u7)] pub Vec<u64>);
#[derive(Clone, Readable, Writable)] pub struct L24 { #[speedy(length_type = u7)] pub reader: String }
#[derive(Clone, Readable, Writable)] pub struct L25<'a>(#[speedy(length_type = u7)] pub Cow<'a, [u32]>);
#[derive(Clone, Readable, Writable)] pub struct L26<'a> { #[speedy(length_type = u7)] pub data: &'a str }
#[derive(Clone, Readable, Writable)] pub struct L27(#[speedy(length_type = u7)] pub Vec<Option<u16>>);
#[derive(Clone, Readable, Writable)] pub struct L28(#[speedy(length_type = u8)] pub String);
#[derive(Clone, Readable, Writable)] pub struct L29 { #[speedy(length_type = u8)] pub len: BTreeMap<u8, u16> }
#[derive(Clone, Readable, Writable)] pub struct L30<'a> { #[speedy(length_type = u8)] pub t1: Cow<'a, [u32]> }
#[derive(Clone, Readable, Writable)] pub struct L31 { #[speedy(length_type = u8)] pub out: Option<Vec<u8>> }
#[derive(Clone, Readable, Writable)] pub struct L32 { #[speedy(length_type = u16)] pub y: BTreeMap<u8, u16> }
#[derive(Clone, Readable, Writable)] pub struct L33 { #[speedy(length_type = u16)] pub result: BTreeSet<u16> }
#[derive(Clone, Readable, Writable)] pub struct L34 { #[speedy(length_type = u16)] pub bytes: Vec<Option<u16>> }
#[derive(Clone, Readable, Writable)] pub struct L35 { #[speedy(length_type = u32)] pub bytes: Vec<u32> }
#[derive(Clone, Readable, Writable)] pub struct L36 { #[speedy(length_type = u32)] pub length: String }
#[derive(Clone, Readable, Writable)] pub struct L37 { #[speedy(length_type = u32)] pub tag: BTreeMap<u8, u16> }
#[derive(Clone, Readable, Writable)] pub struct L38 { #[speedy(length_type = u32)] pub slice: BTreeSet<u16> }
#[derive(Clone, Readable, Writable)] pub struct L39<'a> { #[speedy(length_type = u32)] pub a: Cow<'a, [u32]> }
#[derive(Clone, Readable, Writable)] pub struct L40(#[speedy(length_type = u32)] pub Option<Vec<u8>>);
#[derive(Clone, Readable, Writable)] pub struct L41(#[speedy(length_type = u32)] pub Vec<Option<u16>>);
#[derive(Clone, Readable, Writable)] pub struct L42 { #[speedy(length_type = u64)] pub value: String }
#[derive(Clone, Readable, Writable)] pub struct L43(#[speedy(length_type = u64)] pub BTreeSet<u16>);
#[derive(Clone, Readable, Writable)] pub struct L44 { #[speedy(length_type = u64)] pub tag: Option<Vec<u8>> }
#[derive(Clone, Readable, Writable)] pub struct L45<'a>(#[speedy(length_type = u64)] pub &'a [u8]);
#[derive(Clone, Readable, Writable)] pub struct L46 { #[speedy(length_type = u64_varint)] pub count: Vec<u32> }
#[derive(Clone, Readable, Writable)] pub struct L47(#[speedy(length_type = u64_varint)] pub String);
#[derive(Clone, Readable, Writable)] pub struct L48 { #[speedy(length_type = u64_varint)] pub key: BTreeMap<u8, u16> }
#[derive(Clone, Readable, Writable)] pub struct L49 { #[speedy(length_type = u64_varint)] pub len: BTreeSet<u16> }
#[derive(Clone, Readable, Writable)] pub struct L50(#[speedy(length_type = u64_varint)] pub Option<Vec<u8>>);
#[derive(Clone, Readable, Writable)] pub struct L51<'a>(#[speedy(length_type = u64_varint)] pub &'a str);
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u7)] pub enum E52 { V0 }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u7)] pub enum E54 { V0(u32, BTreeSet<u32>), #[speedy(tag = 60)] V1, V2(Option<Option<Ipv4Addr>>, u64), #[speedy(tag = 72)] V3 { x: Vec<[NonZeroU32; 2]> }, #[speedy(tag = 1)] V4 { length: f64 }, #[speedy(tag = 125)] V5(char) }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E55 { #[speedy(tag = 228)] V0 }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E56 { V0, V1 }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16)] pub enum E57 { V0 { out: Ipv6Addr }, V1 { size: String } }
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u16)] pub enum E58 { V0, V1 = 58856, V2 = 0xa0, V3 }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u32)] pub enum E59<'a> { V0(bool), #[speedy(tag = 5)] V1((Box<Uuid>, Cow<'a, str>,)) }
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u32)] pub enum E60 { V0, V1 = 2, V2, #[speedy(tag = 864083185)] V3 = 0x42 }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum E61 { #[speedy(tag = 18446744073709551614)] V0, #[speedy(tag = 18446744073709551615)] V1(usize, i16, Vec<E56>), #[speedy(tag = 3127757208696210148)] V2(char, Vec<(char,)>, Option<BTreeMap<String, i128>>) }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum E62 { V0, V1, V2, V3 }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E63<'a> { #[speedy(tag = 8)] V0, #[speedy(tag = 4324046014375801574)] V1(Option<String>, Vec<Cow<'a, str>>, (Cow<'a, BTreeMap<u8, u32>>, u8,)), V2 { rest: E54, len: E58, kind: bool }, V3(BTreeSet<i16>, u8, Ipv4Addr) }
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u64_varint)] pub enum E64 { #[speedy(tag = 18446744073709551614)] V0, V1 = 0x4000 }
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u64)] pub enum E65 { V0 = 1405789270657645553, V1 = 1 }
#[derive(Clone, Readable, Writable)] pub enum E66<'a> { #[speedy(tag = 0)] V0(u8, #[speedy(length = ..)] Vec<u8>), #[speedy(tag = 25)] V1(u8, #[speedy(length_type = u16)] Option<Vec<u8>>), #[speedy(tag = 3)] V2(#[speedy(length = ..)] Vec<i64>), #[speedy(tag = 211)] V3(BTreeMap<u8, S7>, #[speedy(constant_prefix = 7u8)] #[speedy(length_type = u64)] Cow<'a, BTreeMap<u16, u8>>, #[speedy(length_type = u64)] Option<Cow<'a, BTreeSet<u32>>>), V4 { #[speedy(constant_prefix = false, length_type = u16)] len: Vec<String>, #[speedy(length_type = u7)] count: Cow<'a, BTreeMap<u16, bool>>, #[speedy(default_on_eof)] x: u8 }, #[speedy(tag = 1)] V5 }
#[derive(Clone, Readable, Writable)] pub struct S67(#[speedy(constant_prefix = "")] pub String, pub S5);
#[derive(Clone, Readable, Writable)] pub struct S68<'a> { pub y: i8, pub name: bool, #[speedy(length_type = u7)] pub length: Vec<String>, #[speedy(constant_prefix = 7u8)] pub result: Option<Cow<'a, [i16]>>, #[speedy(constant_prefix = b"\0\xff\0")] #[speedy(default_on_eof)] pub b: [i8; 3] }
#[derive(Clone, Readable, Writable)] pub struct S69 { #[speedy(skip)] pub name: ((u8, i16, bool,), Vec<Ipv6Addr>,), #[speedy(constant_prefix = b"RU")] pub a: BTreeSet<u16>, pub flags: [Option<u32>; 0], #[speedy(constant_prefix = -128i8)] pub x: Vec<Vec<bool>> }
#[derive(Clone, Readable, Writable)] pub struct S70 { #[speedy(constant_prefix = '\u{20ac}')] pub len: BTreeMap<u64, bool>, #[speedy(skip)] pub result: BTreeSet<String> }
#[derive(Clone, Readable, Writable)] pub struct S71<'a>(#[speedy(length_type = u64_varint)] pub Cow<'a, BTreeMap<u16, u16>>, #[speedy(length_type = u64_varint)] pub Vec<Ipv6Addr>, pub u8);
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E72 { #[speedy(tag = 5)] V0 { #[speedy(constant_prefix = '\u{20ac}')] #[speedy(default_on_eof)] error: f32 }, #[speedy(tag = 210)] V1(#[speedy(constant_prefix = true)] f64), V2, V3(#[speedy(constant_prefix = "")] String), #[speedy(tag = 195)] V4(#[speedy(length_type = u8, constant_prefix = b"\0\xff\0")] String, Option<u8>), V5 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K73 { pub key: u64, pub rest: u64, #[speedy(skip)] pub tag: u64 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K74 { pub t0: u32, #[speedy(constant_prefix = b'Z')] pub result: u32 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K75 { #[speedy(skip)] pub value: u8, pub y: u8 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K76 { pub data: u32, #[speedy(constant_prefix = false)] pub t1: u32, pub result: u32 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K77 { pub b: u32, pub id: u32, #[speedy(default_on_eof)] pub slice: u32 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K78 { pub flags: u16, #[speedy(skip)] pub name: u16 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K79 { #[speedy(constant_prefix = b"\0\xff\0")] pub error: u8, pub reader: u8 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K80 { #[speedy(varint)] pub t0: u64, pub slice: u64 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K81 { pub error: u16, #[speedy(default_on_eof)] pub length: u16 }
#[derive(Clone, Readable, Writable)] #[repr(packed)] pub struct K82 { pub result: u64, #[speedy(constant_prefix = -128i8)] pub bytes: u64 }
#[derive(Clone, Readable, Writable)] #[repr(packed)] pub struct K83 { pub y: u32, #[speedy(default_on_eof)] pub id: u32 }
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct K84 { #[speedy(constant_prefix = 7u8)] pub rest: u16 }
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct K85 { #[speedy(varint)] pub key: u64 }
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct K86 { #[speedy(default_on_eof)] pub length: u16 }
#[derive(Clone, Readable, Writable)] pub struct K87 { pub y: u64, #[speedy(varint)] pub slice: u64 }
#[derive(Clone, Readable, Writable)] pub struct K88 { pub slice: u64, pub b: u64, #[speedy(default_on_eof)] pub tag: u64 }
#[derive(Clone, Readable, Writable)] pub struct K89 { pub b: u8, #[speedy(skip)] pub size: u8 }
#[derive(Clone, Readable, Writable)] pub struct K90 { pub t1: u8, #[speedy(constant_prefix = -3i8)] pub name: u8 }
#[derive(Clone, Readable, Writable)] pub struct K91 { pub bytes: u64, pub size: u64, #[speedy(varint)] pub result: u64 }
#[derive(Clone, Readable, Writable)] pub struct K92 { pub x: u16, #[speedy(skip)] pub kind: u16 }
#[derive(Clone, Readable, Writable)] pub struct K93 { pub b: u16, #[speedy(constant_prefix = b"RU")] pub error: u16 }
#[derive(Clone, Readable, Writable)] pub struct K94 { pub t0: u64, #[speedy(default_on_eof)] pub kind: u64 }
#[derive(Clone, Readable, Writable)] pub struct P95 { pub x: u16, #[speedy(constant_prefix = b"RU")] pub value: String }
#[derive(Clone, Readable, Writable)] pub struct P96 { pub value: u16, #[speedy(constant_prefix = "ab\u{e9}")] pub error: String }
#[derive(Clone, Readable, Writable)] pub struct P97 { #[speedy(constant_prefix = 7u8)] pub rest: u8, pub t0: u16 }
#[derive(Clone, Readable, Writable)] pub struct P98 { pub length: u16, #[speedy(constant_prefix = 'x')] pub tag: u16 }
#[derive(Clone, Readable, Writable)] pub struct P99 { pub error: u16, #[speedy(constant_prefix = '\u{20ac}')] pub t1: u8 }
#[derive(Clone, Readable, Writable)] pub struct P100 { pub length: u16, #[speedy(constant_prefix = true)] pub id: String }
#[derive(Clone, Readable, Writable)] pub struct P101 { pub x: u16, #[speedy(constant_prefix = b'Z')] pub out: String }
#[derive(Clone, Readable, Writable)] pub struct P102 { pub t0: u16, #[speedy(constant_prefix = -3i8)] pub b: bool }
#[derive(Clone, Readable, Writable)] pub struct P103 { pub data: u16, #[speedy(constant_prefix = b"\0\xff\0")] pub count: u16 }
#[derive(Clone, Readable, Writable)] pub struct P104 { pub error: u16, #[speedy(constant_prefix = "")] pub count: u8 }
#[derive(Clone, Readable, Writable)] pub struct P105 { pub data: u16, #[speedy(constant_prefix = false)] pub a: u16 }
#[derive(Clone, Readable, Writable)] pub struct P106 { pub kind: u16, #[speedy(constant_prefix = -128i8)] pub slice: u16 }
#[derive(Clone, Readable, Writable)] pub struct D107(pub u16, #[speedy(default_on_eof, constant_prefix = b"\0\xff\0")] pub u8);
#[derive(Clone, Readable, Writable)] pub struct D108 { pub count: u16, #[speedy(default_on_eof, varint)] pub a: u64 }
#[derive(Clone, Readable, Writable)] pub struct D109(pub u16, #[speedy(default_on_eof)] pub bool);
#[derive(Clone, Readable, Writable)] pub struct D110(pub u16, #[speedy(default_on_eof)] pub char);
#[derive(Clone, Readable, Writable)] pub struct D111(pub u8, #[speedy(default_on_eof)] pub String);
#[derive(Clone, Readable, Writable)] pub struct D112 { pub name: u8, #[speedy(default_on_eof)] pub reader: Vec<u8> }
#[derive(Clone, Readable, Writable)] pub struct D113 { pub len: u16, #[speedy(default_on_eof, length_type = u64, constant_prefix = b"\0\xff\0")] pub length: Vec<u32> }
#[derive(Clone, Readable, Writable)] pub struct D114 { pub out: u16, #[speedy(default_on_eof, length_type = u7)] pub count: Vec<String> }
#[derive(Clone, Readable, Writable)] pub struct D115 { pub rest: u16, #[speedy(default_on_eof)] pub len: Option<u16> }
#[derive(Clone, Readable, Writable)] pub struct D116 { pub name: u8, #[speedy(default_on_eof)] pub rest: Option<Vec<u16>> }
#[derive(Clone, Readable, Writable)] pub struct D117 { pub error: u16, #[speedy(default_on_eof)] pub tag: Option<String> }
#[derive(Clone, Readable, Writable)] pub struct D118 { pub reader: u8, #[speedy(default_on_eof)] pub len: [u16; 3] }
#[derive(Clone, Readable, Writable)] pub struct D119(pub u16, #[speedy(default_on_eof)] #[speedy(constant_prefix = b'Z')] pub BTreeMap<u8, u16>);
#[derive(Clone, Readable, Writable)] pub struct D120(pub u8, #[speedy(default_on_eof, length_type = u32, constant_prefix = true)] pub BTreeSet<u16>);
#[derive(Clone, Readable, Writable)] pub struct D121<'a> { pub length: u16, #[speedy(default_on_eof, constant_prefix = -3i8)] pub size: Cow<'a, str> }
#[derive(Clone, Readable, Writable)] pub struct D122<'a>(pub u16, #[speedy(default_on_eof)] pub Cow<'a, [u16]>);
#[derive(Clone, Readable, Writable)] pub struct D123<'a>(pub u8, #[speedy(default_on_eof, length_type = u64)] pub Cow<'a, BTreeSet<u8>>);
#[derive(Clone, Readable, Writable)] pub struct D124(pub u16, #[speedy(default_on_eof)] #[speedy(constant_prefix = -128i8)] pub (u8, u16,));
#[derive(Clone, Readable, Writable)] pub struct D125(pub u8, #[speedy(default_on_eof, constant_prefix = true)] pub [u8; 4]);
#[derive(Clone, Readable, Writable)] pub struct S126 { #[speedy(varint)] pub a: u64, #[speedy(varint)] pub size: u64, pub value: bool, pub slice: Vec<u64> }
#[derive(Clone, Readable, Writable)] pub struct X127(#[speedy(varint)] pub u64);
#[derive(Clone, Readable, Writable)] pub struct X128(#[speedy(varint)] pub u64, pub u8);
#[derive(Clone, Readable, Writable)] pub struct X129 { #[speedy(length_type = u64_varint)] pub data: Vec<u16> }
#[derive(Clone, Readable, Writable)] pub struct X130 { #[speedy(length_type = u64_varint)] pub count: String, #[speedy(varint)] pub name: u64 }
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct X131(#[speedy(varint)] pub u64);
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct X132(#[speedy(varint)] pub u64);
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E133 { #[speedy(tag = 18446744073709551613)] V0, V1(Box<Option<u32>>, #[speedy(varint)] u64), #[speedy(tag = 13)] V2(char) }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E134 { #[speedy(tag = 9704051112079033031)] V0 }
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u7)] pub enum E135 { #[speedy(tag = 28)] V0(u8) }
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u7)] pub enum E136 { #[speedy(tag = 0)] V0 { a: u8, t0: BTreeMap<bool, Option<i32>>, reader: String }, V1(u8, (String, Option<u8>,)) }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8, peek_tag)] pub enum E137 { V0 { slice: i8, value: BTreeSet<i16> }, #[speedy(tag = 16)] V1(i8, Option<[Duration; 2]>), #[speedy(tag = 254)] V2(u8), #[speedy(tag = 253)] V3 }
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u8)] pub enum E138 { #[speedy(tag = 196)] V0(u8, String, ([i16; 2], bool,)) }
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u16)] pub enum E139 { #[speedy(tag = 65535)] V0 { name: u16, size: u16, key: [Vec<char>; 1] }, #[speedy(tag = 0)] V1, #[speedy(tag = 62497)] V2(u16), #[speedy(tag = 2)] V3(u16, IpAddr, f64), V4(u16, (f32,), BTreeMap<char, E134>), #[speedy(tag = 8)] V5(u16) }
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u32)] pub enum E140 { #[speedy(tag = 131072)] V0 { rest: u32, count: S67, x: u64 }, #[speedy(tag = 4294967294)] V1(u32, i16, Vec<i16>), #[speedy(tag = 2816112707)] V2, #[speedy(tag = 3)] V3(u32), V4 { t0: u32, rest: u16, bytes: u8 }, #[speedy(tag = 712802317)] V5(u32, i8) }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64, peek_tag)] pub enum E141 { V0(u64) }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint, peek_tag)] pub enum E142 { V0(#[speedy(varint)] u64, BTreeSet<bool>), V1(#[speedy(varint)] u64, [(u16,); 0]) }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint, peek_tag)] pub enum E143 { V0 { #[speedy(varint)] error: u64, b: BTreeMap<u16, String>, name: i16 }, #[speedy(tag = 67108864)] V1 { #[speedy(varint)] r#type: u64 }, V2(#[speedy(varint)] u64, [BTreeMap<u32, u8>; 1], u32) }
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u64_varint)] pub enum E144 { V0(#[speedy(varint)] u64), #[speedy(tag = 197400472418537)] V1, #[speedy(tag = 6798192393230909072)] V2 { #[speedy(varint)] value: u64, out: bool, length: BTreeMap<u16, usize> }, #[speedy(tag = 93322577)] V3(#[speedy(varint)] u64, [u16; 2], String) }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint, peek_tag)] pub enum E145 { V0(#[speedy(varint)] u64), V1 { #[speedy(varint)] a: u64, result: String, y: usize }, #[speedy(tag = 3761308029904)] V2 { #[speedy(varint)] x: u64 }, V3 { #[speedy(varint)] tag: u64, data: E143, out: (u16, (), Vec<char>,) }, V4(#[speedy(varint)] u64), #[speedy(tag = 219)] V5(#[speedy(varint)] u64) }
#[derive(Clone, Readable, Writable)] pub struct G146<T> { pub bytes: Vec<T>, pub slice: bool, pub reader: T }
#[derive(Clone, Readable, Writable)] pub struct G147<T>(pub Box<T>, #[speedy(length_type = u64_varint)] pub BTreeMap<u8, T>, #[speedy(constant_prefix = "ab\u{e9}")] pub T);
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum H148<T, U> { V0 { r#type: Option<Vec<U>>, size: T, error: U }, V1(Box<T>), V2 { r#type: BTreeMap<u8, T> }, Z }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct G149<T, U>(pub u32, pub T, pub U);
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct G150<T>(pub T, pub u32);
#[derive(Clone, Copy, Readable, Writable)] #[repr(transparent)] pub struct G151<T>(pub T);
#[derive(Clone, Readable, Writable)] pub struct G152<T, U>(pub [T; 2], pub U, pub T);
#[derive(Clone, Readable, Writable)] pub struct G153<T, U> { pub t1: U, pub count: [T; 2], pub flags: T }
#[derive(Clone, Readable, Writable)] pub struct R154 { pub n: u8, pub kids: Vec<R155>, pub end: u16 }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum R155 { One(Box<R154>), Two { a: Option<Box<R155>>, b: u8 }, Leaf(u32) }
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct Vz {}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct V156 { pub len: u16, pub result: u8 }
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct V157(pub i8, pub i8);
#[derive(Clone, Copy, Readable, Writable)] #[repr(transparent)] pub struct V158(pub u32);
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct V159 { pub len: u64, pub id: u32, pub result: u16 }
#[derive(Clone, Readable, Writable)] pub struct V160<'a> { #[speedy(constant_prefix = false)] pub count: &'a [V158] }
#[derive(Clone, Readable, Writable)] pub struct V161<'a>(#[speedy(length = ..)] pub &'a [u32]);
#[derive(Clone, Readable, Writable)] pub struct V162<'a>(#[speedy(constant_prefix = "ab\u{e9}")] pub &'a [u32], pub u32);
#[derive(Clone, Readable, Writable)] pub struct V163<'a> { pub size: u8, #[speedy(length = ..)] pub y: &'a [Vz] }
#[derive(Clone, Readable, Writable)] pub enum E164<'a> { A(#[speedy(length_type = u8)] &'a [f32]), B { n: u8, #[speedy(length = n / 2)] v: &'a [V159] }, C(u16) }
