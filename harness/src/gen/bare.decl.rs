#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct S1<'a>(pub &'a str, pub [(char, u128,); 0], pub u8, pub u32, pub f64, pub IpAddr);
#[derive(Clone, Readable, Writable)] pub struct S2 { pub out: [IpAddr; 3], pub x: u32, pub id: char }
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S3;
#[derive(Clone, Readable, Writable)] pub enum E4 { V0(i32, NonZeroU32), V1, V2(u8, [u16; 2]) }
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S5 { pub flags: i16, pub slice: u8 }
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S6(pub i16, pub i16);
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct S7(pub i8);
#[derive(Clone, Copy, Readable, Writable)] #[repr(C, packed)] pub struct S8 { pub slice: u8, pub flags: u8, pub value: u8, pub key: u8 }
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(transparent)] pub struct S9(pub i16);
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S10 { pub len: [u16; 2], pub name: [u16; 2], pub tag: u16, pub rest: [u16; 2], pub t1: [u16; 2] }
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S11 { pub name: i32, pub id: i32 }
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S12(pub u8, pub u8, pub u8, pub u8, pub u8);
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct S13(pub [u32; 2], pub [u8; 3], pub u64, pub u16, pub u16);
#[derive(Clone, Copy, Readable, Writable)] pub struct Q14 { pub error: u8, pub size: u8, pub count: u16 }
#[derive(Clone, Copy, Readable, Writable)] pub struct Q15 { pub y: u16, pub result: u8, pub count: u8 }
#[derive(Clone, Copy, Readable, Writable)] pub struct Q16(pub u8, pub u16, pub u8);
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct Q17 { pub result: u8, pub id: u32, pub count: u8, pub b: u32, pub bytes: u16 }
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] #[speedy(unsafe_is_primitive = always)] pub struct S18 { pub kind: u32, pub reader: u32, pub id: u32 }
#[derive(Clone, Readable, Writable)] pub struct S19<'a> { pub data: u8, pub bytes: Option<i8>, pub r#type: u32, pub flags: u8, #[speedy(length = ..)] pub name: &'a str }
#[derive(Clone, Readable, Writable)] pub struct S20<'a>(#[speedy(length_type = u16)] pub &'a str, #[speedy(length_type = u16)] pub &'a str, #[speedy(length = ..)] pub &'a str);
#[derive(Clone, Readable, Writable)] pub struct S21<'a> { #[speedy(length_type = u32)] pub kind: Option<&'a str>, #[speedy(length_type = u16)] pub length: &'a str, #[speedy(length_type = u7)] pub bytes: &'a str, #[speedy(length_type = u8)] pub size: &'a str, #[speedy(length = ..)] pub y: &'a str }
#[derive(Clone, Readable, Writable)] pub struct S22<'a>(pub u8, #[speedy(length = t0 % 4)] pub &'a str, #[speedy(length_type = u64_varint)] pub &'a str, pub u8, pub (u8, &'a str,));
#[derive(Clone, Readable, Writable)] pub struct L23<'a>(#[speedy(length_type = u7)] pub Option<&'a str>);
#[derive(Clone, Readable, Writable)] pub struct L24<'a> { #[speedy(length_type = u7)] pub reader: &'a str }
#[derive(Clone, Readable, Writable)] pub struct L25<'a>(#[speedy(length_type = u7)] pub &'a str);
#[derive(Clone, Readable, Writable)] pub struct L26<'a>(#[speedy(length_type = u7)] pub Option<&'a str>);
#[derive(Clone, Readable, Writable)] pub struct L27<'a>(#[speedy(length_type = u7)] pub Option<&'a str>);
#[derive(Clone, Readable, Writable)] pub struct L28<'a>(#[speedy(length_type = u8)] pub &'a str);
#[derive(Clone, Readable, Writable)] pub struct L29<'a> { #[speedy(length_type = u8)] pub slice: &'a str }
#[derive(Clone, Readable, Writable)] pub struct L30<'a> { #[speedy(length_type = u8)] pub length: &'a str }
#[derive(Clone, Readable, Writable)] pub struct L31<'a> { #[speedy(length_type = u8)] pub r#type: Option<&'a str> }
#[derive(Clone, Readable, Writable)] pub struct L32<'a> { #[speedy(length_type = u8)] pub bytes: &'a str }
#[derive(Clone, Readable, Writable)] pub struct L33<'a>(#[speedy(length_type = u16)] pub Option<&'a str>);
#[derive(Clone, Readable, Writable)] pub struct L34<'a>(#[speedy(length_type = u16)] pub &'a str);
#[derive(Clone, Readable, Writable)] pub struct L35<'a> { #[speedy(length_type = u16)] pub length: &'a str }
#[derive(Clone, Readable, Writable)] pub struct L36<'a>(#[speedy(length_type = u16)] pub &'a str);
#[derive(Clone, Readable, Writable)] pub struct L37<'a>(#[speedy(length_type = u32)] pub &'a str);
#[derive(Clone, Readable, Writable)] pub struct L38<'a> { #[speedy(length_type = u32)] pub out: Option<&'a str> }
#[derive(Clone, Readable, Writable)] pub struct L39<'a>(#[speedy(length_type = u32)] pub Option<&'a str>);
#[derive(Clone, Readable, Writable)] pub struct L40<'a> { #[speedy(length_type = u32)] pub flags: &'a str }
#[derive(Clone, Readable, Writable)] pub struct L41<'a>(#[speedy(length_type = u64)] pub &'a str);
#[derive(Clone, Readable, Writable)] pub struct L42<'a> { #[speedy(length_type = u64)] pub tag: &'a str }
#[derive(Clone, Readable, Writable)] pub struct L43<'a> { #[speedy(length_type = u64)] pub count: &'a str }
#[derive(Clone, Readable, Writable)] pub struct L44<'a> { #[speedy(length_type = u64)] pub value: Option<&'a str> }
#[derive(Clone, Readable, Writable)] pub struct L45<'a> { #[speedy(length_type = u64)] pub kind: &'a str }
#[derive(Clone, Readable, Writable)] pub struct L46<'a>(#[speedy(length_type = u64_varint)] pub &'a str);
#[derive(Clone, Readable, Writable)] pub struct L47<'a> { #[speedy(length_type = u64_varint)] pub t1: Option<&'a str> }
#[derive(Clone, Readable, Writable)] pub struct L48<'a> { #[speedy(length_type = u64_varint)] pub value: Option<&'a str> }
#[derive(Clone, Readable, Writable)] pub struct L49<'a> { #[speedy(length_type = u64_varint)] pub len: &'a str }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u7)] pub enum E50 { #[speedy(tag = 89)] V0 { count: [u32; 2], y: (S7, [f32; 2],), reader: u64 }, V1(u32, u32) }
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u7)] pub enum E51 { V0 = 0x3c }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E52 { V0 }
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u8)] pub enum E53 { V0, #[speedy(tag = 118)] V1 = 5, V2, V3 }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16)] pub enum E54 { V0(bool), #[speedy(tag = 2)] V1 { data: [i16; 2] }, #[speedy(tag = 65533)] V2(char) }
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u16)] pub enum E55 { V0 = 228 }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u32)] pub enum E56 { V0 { len: ([f32; 2],) }, V1([f32; 2], i128), #[speedy(tag = 4294967295)] V2, #[speedy(tag = 4294967294)] V3 { t1: [i32; 2] } }
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u32)] pub enum E57 { V0 = 4294967293, V1, #[speedy(tag = 1388192635)] V2 = 0 }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum E58 { V0 }
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u64)] pub enum E59 { V0 = 306650771958277466, #[speedy(tag = 18446744073709551614)] V1, V2, V3 = 60, V4, V5 }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E60<'a> { #[speedy(tag = 72057594037927936)] V0, #[speedy(tag = 3127757208696210148)] V1(char, [(char,); 2], Option<(&'a str, i128,)>), V2([(i8, u32,); 0], u32, [Option<char>; 2]), V3 }
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u64_varint)] pub enum E61 { V0 = 0x48bf822234f005d8, V1, V2 = 0x4000, V3 = 1073741824 }
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u64)] pub enum E62 { V0 = 5, V1 = 0x27, V2, V3 }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum E63<'a> { V0 { name: i8, #[speedy(length_type = u16)] rest: &'a str, #[speedy(length = ..)] bytes: &'a str }, V1(#[speedy(length_type = u64)] &'a str), #[speedy(tag = 4398046511104)] V2 { #[speedy(length_type = u16)] kind: &'a str, #[speedy(length_type = u32)] a: &'a str, x: u8 }, V3 }
#[derive(Clone, Readable, Writable)] pub struct S64<'a> { pub t1: u32, pub name: (i128, u64, &'a str,) }
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S65 { pub tag: char, #[speedy(default_on_eof)] pub kind: i128 }
#[derive(Clone, Copy, Readable, Writable)] pub struct S66(pub (u8, S8,), pub i128, #[speedy(skip)] pub bool, pub (i16, bool,));
#[derive(Clone, Copy, Readable, Writable)] pub struct S67(pub u8, pub S8, #[speedy(skip)] pub i16, #[speedy(skip)] pub u32, #[speedy(default_on_eof)] pub i128);
#[derive(Clone, Readable, Writable)] pub struct S68<'a> { pub len: u8, #[speedy(length_type = u64_varint)] pub count: &'a str, #[speedy(length = len)] pub bytes: &'a str, #[speedy(length_type = u8)] pub a: &'a str, #[speedy(length = len % 4)] pub data: &'a str }
#[derive(Clone, Readable, Writable)] pub enum E69 { #[speedy(tag = 128)] V0 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K70 { pub size: u32, #[speedy(skip)] pub kind: u32 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K71 { pub bytes: u32, pub r#type: u32, pub reader: u32 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K72 { #[speedy(varint)] pub rest: u64, pub bytes: u64, pub r#type: u64 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K73 { pub value: u32, #[speedy(default_on_eof)] pub size: u32 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K74 { #[speedy(skip)] pub flags: u64, pub size: u64 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K75 { pub count: u8, pub out: u8 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K76 { #[speedy(varint)] pub tag: u64, pub a: u64, pub key: u64 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K77 { pub data: u32, #[speedy(skip)] pub bytes: u32, pub value: u32 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K78 { pub a: u32, pub size: u32, pub b: u32 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K79 { pub kind: u64, #[speedy(varint)] pub error: u64 }
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K80 { pub result: u16, pub kind: u16, #[speedy(default_on_eof)] pub len: u16 }
#[derive(Clone, Readable, Writable)] #[repr(packed)] pub struct K81 { #[speedy(skip)] pub result: u8, pub size: u8 }
#[derive(Clone, Readable, Writable)] #[repr(packed)] pub struct K82 { pub t0: u32, pub reader: u32 }
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct K83 { #[speedy(skip)] pub r#type: u64 }
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct K84 { pub size: u32 }
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct K85 { #[speedy(varint)] pub size: u64 }
#[derive(Clone, Readable, Writable)] pub struct K86 { pub a: u64, pub value: u64, pub error: u64 }
#[derive(Clone, Readable, Writable)] pub struct K87 { #[speedy(varint)] pub length: u64, pub data: u64, pub error: u64 }
#[derive(Clone, Readable, Writable)] pub struct K88 { pub kind: u32, pub x: u32, #[speedy(default_on_eof)] pub tag: u32 }
#[derive(Clone, Readable, Writable)] pub struct K89 { #[speedy(skip)] pub kind: u32, pub result: u32 }
#[derive(Clone, Readable, Writable)] pub struct K90 { #[speedy(varint)] pub b: u64, pub t0: u64, pub id: u64 }
#[derive(Clone, Readable, Writable)] pub struct K91 { pub error: u32, #[speedy(default_on_eof)] pub out: u32 }
#[derive(Clone, Readable, Writable)] pub struct K92 { pub result: u32, #[speedy(skip)] pub out: u32 }
#[derive(Clone, Readable, Writable)] pub struct K93 { #[speedy(varint)] pub t1: u64, pub slice: u64 }
#[derive(Clone, Readable, Writable)] pub struct D94(pub u8, #[speedy(default_on_eof)] pub u8);
#[derive(Clone, Readable, Writable)] pub struct D95 { pub length: u16, #[speedy(default_on_eof)] #[speedy(varint)] pub rest: u64 }
#[derive(Clone, Readable, Writable)] pub struct D96(pub u8, #[speedy(default_on_eof)] pub bool);
#[derive(Clone, Readable, Writable)] pub struct D97 { pub kind: u8, #[speedy(default_on_eof)] pub bytes: char }
#[derive(Clone, Readable, Writable)] pub struct D98(pub u8, #[speedy(default_on_eof)] pub [u8; 2]);
#[derive(Clone, Readable, Writable)] pub struct D99(pub u16, #[speedy(default_on_eof)] pub [u32; 2]);
#[derive(Clone, Readable, Writable)] pub struct D100 { pub x: u16, #[speedy(default_on_eof)] pub rest: Option<u16> }
#[derive(Clone, Readable, Writable)] pub struct D101(pub u8, #[speedy(default_on_eof)] pub Option<[u16; 2]>);
#[derive(Clone, Readable, Writable)] pub struct D102<'a>(pub u8, #[speedy(default_on_eof)] pub Option<&'a str>);
#[derive(Clone, Readable, Writable)] pub struct D103 { pub reader: u8, #[speedy(default_on_eof)] pub b: [u16; 3] }
#[derive(Clone, Readable, Writable)] pub struct D104(pub u16, #[speedy(default_on_eof)] pub (u8, u16,));
#[derive(Clone, Readable, Writable)] pub struct D105(pub u16, #[speedy(default_on_eof)] pub u16);
#[derive(Clone, Readable, Writable)] pub struct D106(pub u16, #[speedy(default_on_eof)] pub [u16; 2]);
#[derive(Clone, Readable, Writable)] pub struct D107 { pub bytes: u8, #[speedy(default_on_eof)] pub x: u8 }
#[derive(Clone, Readable, Writable)] pub struct D108(pub u8, #[speedy(default_on_eof)] pub (u8, u16,));
#[derive(Clone, Readable, Writable)] pub struct D109 { pub data: u8, #[speedy(default_on_eof)] pub key: [u8; 4] }
#[derive(Clone, Readable, Writable)] pub struct S110<'a>(pub (&'a str, f64,));
#[derive(Clone, Readable, Writable)] pub struct X111(#[speedy(varint)] pub u64);
#[derive(Clone, Readable, Writable)] pub struct X112(#[speedy(varint)] pub u64, pub u8);
#[derive(Clone, Readable, Writable)] pub struct X113<'a> { #[speedy(length_type = u64_varint)] pub id: &'a str }
#[derive(Clone, Readable, Writable)] pub struct X114<'a> { #[speedy(length_type = u64_varint)] pub slice: &'a str, #[speedy(varint)] pub id: u64 }
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct X115(#[speedy(varint)] pub u64);
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct X116(#[speedy(varint)] pub u64);
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E117<'a> { V0 { out: &'a str } }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E118 { #[speedy(tag = 12026588796693393188)] V0(u8, S6), #[speedy(tag = 268435456)] V1, #[speedy(tag = 13564128121889161815)] V2(u128), #[speedy(tag = 18446744073709551614)] V3, #[speedy(tag = 562949953421312)] V4(([f32; 0], [u16; 2], u16,)), V5([Option<i128>; 2]) }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u7, peek_tag)] pub enum E119 { V0(u8, Option<char>), #[speedy(tag = 3)] V1(u8, [bool; 2]), #[speedy(tag = 127)] V2, #[speedy(tag = 126)] V3 { count: u8, t0: [f32; 2] }, #[speedy(tag = 22)] V4(u8), #[speedy(tag = 125)] V5(u8) }
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u7)] pub enum E120 { #[speedy(tag = 0)] V0(u8), #[speedy(tag = 101)] V1(u8), V2(u8, (u16, S10, char,)), #[speedy(tag = 1)] V3(u8) }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8, peek_tag)] pub enum E121 { #[speedy(tag = 139)] V0(u8), V1(u8) }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16, peek_tag)] pub enum E122 { V0(u16, u64) }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16, peek_tag)] pub enum E123<'a> { V0 { length: u16, flags: [i8; 2], kind: &'a str } }
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u32)] pub enum E124 { #[speedy(tag = 0)] V0(u32, [Endianness; 2]), V1 { kind: u32 }, V2(u32), #[speedy(tag = 4294967293)] V3 { r#type: u32, tag: [[f32; 3]; 2] }, #[speedy(tag = 4294967294)] V4, #[speedy(tag = 90)] V5(u32, NonZeroI16, i16) }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64, peek_tag)] pub enum E125 { #[speedy(tag = 165)] V0(u64, bool, Option<[bool; 1]>) }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint, peek_tag)] pub enum E126 { #[speedy(tag = 1873662043)] V0(#[speedy(varint)] u64), V1(#[speedy(varint)] u64) }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16, peek_tag)] pub enum E127<'a> { V0(u16, u32), V1(u16, char), #[speedy(tag = 16)] V2, #[speedy(tag = 65533)] V3(u16, &'a str), V4(u16, f64, Option<u16>), V5 { name: u16 } }
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u64_varint)] pub enum E128 { V0(#[speedy(varint)] u64) }
