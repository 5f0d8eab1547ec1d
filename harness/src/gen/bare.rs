// Made by tools/gen_derive.py. Derived types and their schemas.
use harness::model::*;
use harness::ops::TypeOps;
use harness::util::*;
use harness::{reg, reg_be, reg_le};
use speedy::{Endianness, Readable, Writable};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::net::*;
use std::num::*;
use std::time::{Duration, SystemTime};
use uuid::Uuid;

#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct S1<'a>(pub &'a str, pub [(char, u128,); 0], pub u8, pub u32, pub f64, pub IpAddr);
impl Model for S1<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<&'static str as Model>::schema(), false, false, &[]), fieldx(<[(char, u128,); 0] as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<f64 as Model>::schema(), false, false, &[]), fieldx(<IpAddr as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(','); self.5.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static str = <&'static str as Model>::gen(r); let t1: [(char, u128,); 0] = <[(char, u128,); 0] as Model>::gen(r); let t2: u8 = <u8 as Model>::gen(r); let t3: u32 = <u32 as Model>::gen(r); let t4: f64 = <f64 as Model>::gen(r); let t5: IpAddr = <IpAddr as Model>::gen(r); S1(t0, t1, t2, t3, t4, t5) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); self.5.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S2 { pub out: [IpAddr; 3], pub x: u32, pub id: char }
impl Model for S2 {
    fn schema() -> String { struct_schema(&[fieldx(<[IpAddr; 3] as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<char as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.out.val(o); o.push(','); self.x.val(o); o.push(','); self.id.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: [IpAddr; 3] = <[IpAddr; 3] as Model>::gen(r); let x: u32 = <u32 as Model>::gen(r); let id: char = <char as Model>::gen(r); S2 { out, x, id } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.out.borrows(f); self.x.borrows(f); self.id.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S3;
impl Model for S3 {
    fn schema() -> String { struct_schema(&[]) }
    fn val(&self, o: &mut String) { o.push('[');  o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| {  S3 }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub enum E4 { V0(i32, NonZeroU32), V1, V2(u8, [u16; 2]) }
impl Model for E4 {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(<i32 as Model>::schema(), false, false, &[]), fieldx(<NonZeroU32 as Model>::schema(), false, false, &[])]), (1, vec![]), (2, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<[u16; 2] as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E4::V0(f_0, f_1) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E4::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E4::V2(f_0, f_1) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let t0: i32 = <i32 as Model>::gen(r); let t1: NonZeroU32 = <NonZeroU32 as Model>::gen(r); E4::V0(t0, t1) } 1 => {  E4::V1 } 2 => { let t0: u8 = <u8 as Model>::gen(r); let t1: [u16; 2] = <[u16; 2] as Model>::gen(r); E4::V2(t0, t1) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E4::V0(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E4::V1 => {  } E4::V2(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S5 { pub flags: i16, pub slice: u8 }
impl Model for S5 {
    fn schema() -> String { struct_schema(&[fieldx(<i16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.flags.val(o); o.push(','); self.slice.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let flags: i16 = <i16 as Model>::gen(r); let slice: u8 = <u8 as Model>::gen(r); S5 { flags, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.flags.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S6(pub i16, pub i16);
impl Model for S6 {
    fn schema() -> String { struct_schema(&[fieldx(<i16 as Model>::schema(), false, false, &[]), fieldx(<i16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: i16 = <i16 as Model>::gen(r); let t1: i16 = <i16 as Model>::gen(r); S6(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct S7(pub i8);
impl Model for S7 {
    fn schema() -> String { struct_schema(&[fieldx(<i8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); { let x = self.0; x.val(o); } o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: i8 = <i8 as Model>::gen(r); S7(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { { let x = self.0; x.borrows(f); } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C, packed)] pub struct S8 { pub slice: u8, pub flags: u8, pub value: u8, pub key: u8 }
impl Model for S8 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); { let x = self.slice; x.val(o); } o.push(','); { let x = self.flags; x.val(o); } o.push(','); { let x = self.value; x.val(o); } o.push(','); { let x = self.key; x.val(o); } o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let slice: u8 = <u8 as Model>::gen(r); let flags: u8 = <u8 as Model>::gen(r); let value: u8 = <u8 as Model>::gen(r); let key: u8 = <u8 as Model>::gen(r); S8 { slice, flags, value, key } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { { let x = self.slice; x.borrows(f); } { let x = self.flags; x.borrows(f); } { let x = self.value; x.borrows(f); } { let x = self.key; x.borrows(f); } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(transparent)] pub struct S9(pub i16);
impl Model for S9 {
    fn schema() -> String { struct_schema(&[fieldx(<i16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: i16 = <i16 as Model>::gen(r); S9(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S10 { pub len: [u16; 2], pub name: [u16; 2], pub tag: u16, pub rest: [u16; 2], pub t1: [u16; 2] }
impl Model for S10 {
    fn schema() -> String { struct_schema(&[fieldx(<[u16; 2] as Model>::schema(), false, false, &[]), fieldx(<[u16; 2] as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<[u16; 2] as Model>::schema(), false, false, &[]), fieldx(<[u16; 2] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.len.val(o); o.push(','); self.name.val(o); o.push(','); self.tag.val(o); o.push(','); self.rest.val(o); o.push(','); self.t1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: [u16; 2] = <[u16; 2] as Model>::gen(r); let name: [u16; 2] = <[u16; 2] as Model>::gen(r); let tag: u16 = <u16 as Model>::gen(r); let rest: [u16; 2] = <[u16; 2] as Model>::gen(r); let t1: [u16; 2] = <[u16; 2] as Model>::gen(r); S10 { len, name, tag, rest, t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); self.name.borrows(f); self.tag.borrows(f); self.rest.borrows(f); self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S11 { pub name: i32, pub id: i32 }
impl Model for S11 {
    fn schema() -> String { struct_schema(&[fieldx(<i32 as Model>::schema(), false, false, &[]), fieldx(<i32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.name.val(o); o.push(','); self.id.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: i32 = <i32 as Model>::gen(r); let id: i32 = <i32 as Model>::gen(r); S11 { name, id } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); self.id.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S12(pub u8, pub u8, pub u8, pub u8, pub u8);
impl Model for S12 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); let t2: u8 = <u8 as Model>::gen(r); let t3: u8 = <u8 as Model>::gen(r); let t4: u8 = <u8 as Model>::gen(r); S12(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct S13(pub [u32; 2], pub [u8; 3], pub u64, pub u16, pub u16);
impl Model for S13 {
    fn schema() -> String { struct_schema(&[fieldx(<[u32; 2] as Model>::schema(), false, false, &[]), fieldx(<[u8; 3] as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); { let x = self.0; x.val(o); } o.push(','); { let x = self.1; x.val(o); } o.push(','); { let x = self.2; x.val(o); } o.push(','); { let x = self.3; x.val(o); } o.push(','); { let x = self.4; x.val(o); } o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: [u32; 2] = <[u32; 2] as Model>::gen(r); let t1: [u8; 3] = <[u8; 3] as Model>::gen(r); let t2: u64 = <u64 as Model>::gen(r); let t3: u16 = <u16 as Model>::gen(r); let t4: u16 = <u16 as Model>::gen(r); S13(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { { let x = self.0; x.borrows(f); } { let x = self.1; x.borrows(f); } { let x = self.2; x.borrows(f); } { let x = self.3; x.borrows(f); } { let x = self.4; x.borrows(f); } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct Q14 { pub error: u8, pub size: u8, pub count: u16 }
impl Model for Q14 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.error).val(o); o.push(','); (self.size).val(o); o.push(','); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let error: u8 = <u8 as Model>::gen(r); let size: u8 = <u8 as Model>::gen(r); let count: u16 = <u16 as Model>::gen(r); Q14 { error, size, count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.error.borrows(f); self.size.borrows(f); self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct Q15 { pub y: u16, pub result: u8, pub count: u8 }
impl Model for Q15 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.y).val(o); o.push(','); (self.result).val(o); o.push(','); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: u16 = <u16 as Model>::gen(r); let result: u8 = <u8 as Model>::gen(r); let count: u8 = <u8 as Model>::gen(r); Q15 { y, result, count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.y.borrows(f); self.result.borrows(f); self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct Q16(pub u8, pub u16, pub u8);
impl Model for Q16 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: u16 = <u16 as Model>::gen(r); let t2: u8 = <u8 as Model>::gen(r); Q16(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct Q17 { pub result: u8, pub id: u32, pub count: u8, pub b: u32, pub bytes: u16 }
impl Model for Q17 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.result).val(o); o.push(','); (self.id).val(o); o.push(','); (self.count).val(o); o.push(','); (self.b).val(o); o.push(','); (self.bytes).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: u8 = <u8 as Model>::gen(r); let id: u32 = <u32 as Model>::gen(r); let count: u8 = <u8 as Model>::gen(r); let b: u32 = <u32 as Model>::gen(r); let bytes: u16 = <u16 as Model>::gen(r); Q17 { result, id, count, b, bytes } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.result.borrows(f); self.id.borrows(f); self.count.borrows(f); self.b.borrows(f); self.bytes.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] #[speedy(unsafe_is_primitive = always)] pub struct S18 { pub kind: u32, pub reader: u32, pub id: u32 }
impl Model for S18 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.kind.val(o); o.push(','); self.reader.val(o); o.push(','); self.id.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let kind: u32 = <u32 as Model>::gen(r); let reader: u32 = <u32 as Model>::gen(r); let id: u32 = <u32 as Model>::gen(r); S18 { kind, reader, id } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.kind.borrows(f); self.reader.borrows(f); self.id.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S19<'a> { pub data: u8, pub bytes: Option<i8>, pub r#type: u32, pub flags: u8, #[speedy(length = ..)] pub name: &'a str }
impl Model for S19<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<Option<i8> as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.data.val(o); o.push(','); self.bytes.val(o); o.push(','); self.r#type.val(o); o.push(','); self.flags.val(o); o.push(','); self.name.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let data: u8 = (r.below(24) as u8); let bytes: Option<i8> = <Option<i8> as Model>::gen(r); let r#type: u32 = (r.below(24) as u32); let flags: u8 = (r.below(24) as u8); let name: &'static str = <&'static str as Model>::gen(r); S19 { data, bytes, r#type, flags, name } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.data.borrows(f); self.bytes.borrows(f); self.r#type.borrows(f); self.flags.borrows(f); self.name.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S20<'a>(#[speedy(length_type = u16)] pub &'a str, #[speedy(length_type = u16)] pub &'a str, #[speedy(length = ..)] pub &'a str);
impl Model for S20<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static str = { gen_upto::<&'static str>(r, "u16") }; let t1: &'static str = { gen_upto::<&'static str>(r, "u16") }; let t2: &'static str = <&'static str as Model>::gen(r); S20(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S21<'a> { #[speedy(length_type = u32)] pub kind: Option<&'a str>, #[speedy(length_type = u16)] pub length: &'a str, #[speedy(length_type = u7)] pub bytes: &'a str, #[speedy(length_type = u8)] pub size: &'a str, #[speedy(length = ..)] pub y: &'a str }
impl Model for S21<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<&'static str> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.kind.val(o); o.push(','); self.length.val(o); o.push(','); self.bytes.val(o); o.push(','); self.size.val(o); o.push(','); self.y.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let kind: Option<&'static str> = { gen_upto::<Option<&'static str>>(r, "u32") }; let length: &'static str = { gen_upto::<&'static str>(r, "u16") }; let bytes: &'static str = { gen_upto::<&'static str>(r, "u7") }; let size: &'static str = { gen_upto::<&'static str>(r, "u8") }; let y: &'static str = <&'static str as Model>::gen(r); S21 { kind, length, bytes, size, y } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.kind.borrows(f); self.length.borrows(f); self.bytes.borrows(f); self.size.borrows(f); self.y.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S22<'a>(pub u8, #[speedy(length = t0 % 4)] pub &'a str, #[speedy(length_type = u64_varint)] pub &'a str, pub u8, pub (u8, &'a str,));
impl Model for S22<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"mod\",\"a\":{\"x\":\"f\",\"i\":1},\"b\":{\"x\":\"n\",\"n\":4}},\"nm\":\"t1\"}"), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<(u8, &'static str,) as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = (r.below(24) as u8); let t1: &'static str = { let n = (t0 % 4) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <&'static str as GenN>::gen_n(r, n) }; let t2: &'static str = { gen_upto::<&'static str>(r, "varint") }; let t3: u8 = (r.below(24) as u8); let t4: (u8, &'static str,) = <(u8, &'static str,) as Model>::gen(r); S22(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L23<'a>(#[speedy(length_type = u7)] pub Option<&'a str>);
impl Model for L23<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<&'static str> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<&'static str> = { gen_upto::<Option<&'static str>>(r, "u7") }; L23(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L24<'a> { #[speedy(length_type = u7)] pub reader: &'a str }
impl Model for L24<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.reader).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let reader: &'static str = { gen_upto::<&'static str>(r, "u7") }; L24 { reader } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.reader.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L25<'a>(#[speedy(length_type = u7)] pub &'a str);
impl Model for L25<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static str = { gen_upto::<&'static str>(r, "u7") }; L25(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L26<'a>(#[speedy(length_type = u7)] pub Option<&'a str>);
impl Model for L26<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<&'static str> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<&'static str> = { gen_upto::<Option<&'static str>>(r, "u7") }; L26(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L27<'a>(#[speedy(length_type = u7)] pub Option<&'a str>);
impl Model for L27<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<&'static str> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<&'static str> = { gen_upto::<Option<&'static str>>(r, "u7") }; L27(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L28<'a>(#[speedy(length_type = u8)] pub &'a str);
impl Model for L28<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static str = { gen_upto::<&'static str>(r, "u8") }; L28(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L29<'a> { #[speedy(length_type = u8)] pub slice: &'a str }
impl Model for L29<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.slice).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let slice: &'static str = { gen_upto::<&'static str>(r, "u8") }; L29 { slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L30<'a> { #[speedy(length_type = u8)] pub length: &'a str }
impl Model for L30<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.length).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: &'static str = { gen_upto::<&'static str>(r, "u8") }; L30 { length } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L31<'a> { #[speedy(length_type = u8)] pub r#type: Option<&'a str> }
impl Model for L31<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<&'static str> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.r#type).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let r#type: Option<&'static str> = { gen_upto::<Option<&'static str>>(r, "u8") }; L31 { r#type } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.r#type.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L32<'a> { #[speedy(length_type = u8)] pub bytes: &'a str }
impl Model for L32<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.bytes).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let bytes: &'static str = { gen_upto::<&'static str>(r, "u8") }; L32 { bytes } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.bytes.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L33<'a>(#[speedy(length_type = u16)] pub Option<&'a str>);
impl Model for L33<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<&'static str> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<&'static str> = { gen_upto::<Option<&'static str>>(r, "u16") }; L33(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L34<'a>(#[speedy(length_type = u16)] pub &'a str);
impl Model for L34<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static str = { gen_upto::<&'static str>(r, "u16") }; L34(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L35<'a> { #[speedy(length_type = u16)] pub length: &'a str }
impl Model for L35<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.length).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: &'static str = { gen_upto::<&'static str>(r, "u16") }; L35 { length } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L36<'a>(#[speedy(length_type = u16)] pub &'a str);
impl Model for L36<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static str = { gen_upto::<&'static str>(r, "u16") }; L36(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L37<'a>(#[speedy(length_type = u32)] pub &'a str);
impl Model for L37<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static str = { gen_upto::<&'static str>(r, "u32") }; L37(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L38<'a> { #[speedy(length_type = u32)] pub out: Option<&'a str> }
impl Model for L38<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<&'static str> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.out).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: Option<&'static str> = { gen_upto::<Option<&'static str>>(r, "u32") }; L38 { out } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.out.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L39<'a>(#[speedy(length_type = u32)] pub Option<&'a str>);
impl Model for L39<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<&'static str> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<&'static str> = { gen_upto::<Option<&'static str>>(r, "u32") }; L39(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L40<'a> { #[speedy(length_type = u32)] pub flags: &'a str }
impl Model for L40<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.flags).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let flags: &'static str = { gen_upto::<&'static str>(r, "u32") }; L40 { flags } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.flags.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L41<'a>(#[speedy(length_type = u64)] pub &'a str);
impl Model for L41<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static str = { gen_upto::<&'static str>(r, "u64") }; L41(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L42<'a> { #[speedy(length_type = u64)] pub tag: &'a str }
impl Model for L42<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.tag).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let tag: &'static str = { gen_upto::<&'static str>(r, "u64") }; L42 { tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L43<'a> { #[speedy(length_type = u64)] pub count: &'a str }
impl Model for L43<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: &'static str = { gen_upto::<&'static str>(r, "u64") }; L43 { count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L44<'a> { #[speedy(length_type = u64)] pub value: Option<&'a str> }
impl Model for L44<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<&'static str> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.value).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let value: Option<&'static str> = { gen_upto::<Option<&'static str>>(r, "u64") }; L44 { value } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.value.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L45<'a> { #[speedy(length_type = u64)] pub kind: &'a str }
impl Model for L45<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.kind).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let kind: &'static str = { gen_upto::<&'static str>(r, "u64") }; L45 { kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L46<'a>(#[speedy(length_type = u64_varint)] pub &'a str);
impl Model for L46<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static str = { gen_upto::<&'static str>(r, "varint") }; L46(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L47<'a> { #[speedy(length_type = u64_varint)] pub t1: Option<&'a str> }
impl Model for L47<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<&'static str> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: Option<&'static str> = { gen_upto::<Option<&'static str>>(r, "varint") }; L47 { t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L48<'a> { #[speedy(length_type = u64_varint)] pub value: Option<&'a str> }
impl Model for L48<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<&'static str> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.value).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let value: Option<&'static str> = { gen_upto::<Option<&'static str>>(r, "varint") }; L48 { value } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.value.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L49<'a> { #[speedy(length_type = u64_varint)] pub len: &'a str }
impl Model for L49<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.len).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: &'static str = { gen_upto::<&'static str>(r, "varint") }; L49 { len } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u7)] pub enum E50 { #[speedy(tag = 89)] V0 { count: [u32; 2], y: (S7, [f32; 2],), reader: u64 }, V1(u32, u32) }
impl Model for E50 {
    fn schema() -> String { enum_schema("u7", false, &[(89, vec![fieldx(<[u32; 2] as Model>::schema(), false, false, &[]), fieldx(<(S7, [f32; 2],) as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]), (90, vec![fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E50::V0 { count: f_0, y: f_1, reader: f_2 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E50::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => { let count: [u32; 2] = <[u32; 2] as Model>::gen(r); let y: (S7, [f32; 2],) = <(S7, [f32; 2],) as Model>::gen(r); let reader: u64 = <u64 as Model>::gen(r); E50::V0 { count, y, reader } } 1 => { let t0: u32 = <u32 as Model>::gen(r); let t1: u32 = <u32 as Model>::gen(r); E50::V1(t0, t1) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E50::V0 { count: f_0, y: f_1, reader: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E50::V1(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u7)] pub enum E51 { V0 = 0x3c }
impl Model for E51 {
    fn schema() -> String { enum_schema("u7", false, &[(60, vec![])]) }
    fn val(&self, o: &mut String) { match self { E51::V0 => { o.push_str("[1,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => {  E51::V0 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E51::V0 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E52 { V0 }
impl Model for E52 {
    fn schema() -> String { enum_schema("u8", false, &[(0, vec![])]) }
    fn val(&self, o: &mut String) { match self { E52::V0 => { o.push_str("[1,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => {  E52::V0 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E52::V0 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u8)] pub enum E53 { V0, #[speedy(tag = 118)] V1 = 5, V2, V3 }
impl Model for E53 {
    fn schema() -> String { enum_schema("u8", false, &[(0, vec![]), (118, vec![]), (119, vec![]), (120, vec![])]) }
    fn val(&self, o: &mut String) { match self { E53::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E53::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E53::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E53::V3 => { o.push_str("[4,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => {  E53::V0 } 1 => {  E53::V1 } 2 => {  E53::V2 } 3 => {  E53::V3 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E53::V0 => {  } E53::V1 => {  } E53::V2 => {  } E53::V3 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16)] pub enum E54 { V0(bool), #[speedy(tag = 2)] V1 { data: [i16; 2] }, #[speedy(tag = 65533)] V2(char) }
impl Model for E54 {
    fn schema() -> String { enum_schema("u16", false, &[(0, vec![fieldx(<bool as Model>::schema(), false, false, &[])]), (2, vec![fieldx(<[i16; 2] as Model>::schema(), false, false, &[])]), (65533, vec![fieldx(<char as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E54::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E54::V1 { data: f_0 } => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E54::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let t0: bool = <bool as Model>::gen(r); E54::V0(t0) } 1 => { let data: [i16; 2] = <[i16; 2] as Model>::gen(r); E54::V1 { data } } 2 => { let t0: char = <char as Model>::gen(r); E54::V2(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E54::V0(f_0) => { f_0.borrows(f); } E54::V1 { data: f_0 } => { f_0.borrows(f); } E54::V2(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u16)] pub enum E55 { V0 = 228 }
impl Model for E55 {
    fn schema() -> String { enum_schema("u16", false, &[(228, vec![])]) }
    fn val(&self, o: &mut String) { match self { E55::V0 => { o.push_str("[1,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => {  E55::V0 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E55::V0 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u32)] pub enum E56 { V0 { len: ([f32; 2],) }, V1([f32; 2], i128), #[speedy(tag = 4294967295)] V2, #[speedy(tag = 4294967294)] V3 { t1: [i32; 2] } }
impl Model for E56 {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(<([f32; 2],) as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<[f32; 2] as Model>::schema(), false, false, &[]), fieldx(<i128 as Model>::schema(), false, false, &[])]), (4294967295, vec![]), (4294967294, vec![fieldx(<[i32; 2] as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E56::V0 { len: f_0 } => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E56::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E56::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E56::V3 { t1: f_0 } => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let len: ([f32; 2],) = <([f32; 2],) as Model>::gen(r); E56::V0 { len } } 1 => { let t0: [f32; 2] = <[f32; 2] as Model>::gen(r); let t1: i128 = <i128 as Model>::gen(r); E56::V1(t0, t1) } 2 => {  E56::V2 } 3 => { let t1: [i32; 2] = <[i32; 2] as Model>::gen(r); E56::V3 { t1 } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E56::V0 { len: f_0 } => { f_0.borrows(f); } E56::V1(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E56::V2 => {  } E56::V3 { t1: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u32)] pub enum E57 { V0 = 4294967293, V1, #[speedy(tag = 1388192635)] V2 = 0 }
impl Model for E57 {
    fn schema() -> String { enum_schema("u32", false, &[(4294967293, vec![]), (4294967294, vec![]), (1388192635, vec![])]) }
    fn val(&self, o: &mut String) { match self { E57::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E57::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E57::V2 => { o.push_str("[3,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => {  E57::V0 } 1 => {  E57::V1 } 2 => {  E57::V2 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E57::V0 => {  } E57::V1 => {  } E57::V2 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum E58 { V0 }
impl Model for E58 {
    fn schema() -> String { enum_schema("u64", false, &[(0, vec![])]) }
    fn val(&self, o: &mut String) { match self { E58::V0 => { o.push_str("[1,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => {  E58::V0 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E58::V0 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u64)] pub enum E59 { V0 = 306650771958277466, #[speedy(tag = 18446744073709551614)] V1, V2, V3 = 60, V4, V5 }
impl Model for E59 {
    fn schema() -> String { enum_schema("u64", false, &[(306650771958277466, vec![]), (18446744073709551614, vec![]), (18446744073709551615, vec![]), (60, vec![]), (61, vec![]), (62, vec![])]) }
    fn val(&self, o: &mut String) { match self { E59::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E59::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E59::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E59::V3 => { o.push_str("[4,[");  o.push_str("]]"); } E59::V4 => { o.push_str("[5,[");  o.push_str("]]"); } E59::V5 => { o.push_str("[6,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => {  E59::V0 } 1 => {  E59::V1 } 2 => {  E59::V2 } 3 => {  E59::V3 } 4 => {  E59::V4 } 5 => {  E59::V5 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E59::V0 => {  } E59::V1 => {  } E59::V2 => {  } E59::V3 => {  } E59::V4 => {  } E59::V5 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E60<'a> { #[speedy(tag = 72057594037927936)] V0, #[speedy(tag = 3127757208696210148)] V1(char, [(char,); 2], Option<(&'a str, i128,)>), V2([(i8, u32,); 0], u32, [Option<char>; 2]), V3 }
impl Model for E60<'static> {
    fn schema() -> String { enum_schema("varint", false, &[(72057594037927936, vec![]), (3127757208696210148, vec![fieldx(<char as Model>::schema(), false, false, &[]), fieldx(<[(char,); 2] as Model>::schema(), false, false, &[]), fieldx(<Option<(&'static str, i128,)> as Model>::schema(), false, false, &[])]), (3127757208696210149, vec![fieldx(<[(i8, u32,); 0] as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<[Option<char>; 2] as Model>::schema(), false, false, &[])]), (3127757208696210150, vec![])]) }
    fn val(&self, o: &mut String) { match self { E60::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E60::V1(f_0, f_1, f_2) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E60::V2(f_0, f_1, f_2) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E60::V3 => { o.push_str("[4,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => {  E60::V0 } 1 => { let t0: char = <char as Model>::gen(r); let t1: [(char,); 2] = <[(char,); 2] as Model>::gen(r); let t2: Option<(&'static str, i128,)> = <Option<(&'static str, i128,)> as Model>::gen(r); E60::V1(t0, t1, t2) } 2 => { let t0: [(i8, u32,); 0] = <[(i8, u32,); 0] as Model>::gen(r); let t1: u32 = <u32 as Model>::gen(r); let t2: [Option<char>; 2] = <[Option<char>; 2] as Model>::gen(r); E60::V2(t0, t1, t2) } 3 => {  E60::V3 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E60::V0 => {  } E60::V1(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E60::V2(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E60::V3 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u64_varint)] pub enum E61 { V0 = 0x48bf822234f005d8, V1, V2 = 0x4000, V3 = 1073741824 }
impl Model for E61 {
    fn schema() -> String { enum_schema("varint", false, &[(5242051574711191000, vec![]), (5242051574711191001, vec![]), (16384, vec![]), (1073741824, vec![])]) }
    fn val(&self, o: &mut String) { match self { E61::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E61::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E61::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E61::V3 => { o.push_str("[4,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => {  E61::V0 } 1 => {  E61::V1 } 2 => {  E61::V2 } 3 => {  E61::V3 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E61::V0 => {  } E61::V1 => {  } E61::V2 => {  } E61::V3 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u64)] pub enum E62 { V0 = 5, V1 = 0x27, V2, V3 }
impl Model for E62 {
    fn schema() -> String { enum_schema("u64", false, &[(5, vec![]), (39, vec![]), (40, vec![]), (41, vec![])]) }
    fn val(&self, o: &mut String) { match self { E62::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E62::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E62::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E62::V3 => { o.push_str("[4,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => {  E62::V0 } 1 => {  E62::V1 } 2 => {  E62::V2 } 3 => {  E62::V3 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E62::V0 => {  } E62::V1 => {  } E62::V2 => {  } E62::V3 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum E63<'a> { V0 { name: i8, #[speedy(length_type = u16)] rest: &'a str, #[speedy(length = ..)] bytes: &'a str }, V1(#[speedy(length_type = u64)] &'a str), #[speedy(tag = 4398046511104)] V2 { #[speedy(length_type = u16)] kind: &'a str, #[speedy(length_type = u32)] a: &'a str, x: u8 }, V3 }
impl Model for E63<'static> {
    fn schema() -> String { enum_schema("u64", false, &[(0, vec![fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]), (1, vec![fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]), (4398046511104, vec![fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]), (4398046511105, vec![])]) }
    fn val(&self, o: &mut String) { match self { E63::V0 { name: f_0, rest: f_1, bytes: f_2 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E63::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E63::V2 { kind: f_0, a: f_1, x: f_2 } => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E63::V3 => { o.push_str("[4,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let name: i8 = <i8 as Model>::gen(r); let rest: &'static str = { gen_upto::<&'static str>(r, "u16") }; let bytes: &'static str = <&'static str as Model>::gen(r); E63::V0 { name, rest, bytes } } 1 => { let t0: &'static str = { gen_upto::<&'static str>(r, "u64") }; E63::V1(t0) } 2 => { let kind: &'static str = { gen_upto::<&'static str>(r, "u16") }; let a: &'static str = { gen_upto::<&'static str>(r, "u32") }; let x: u8 = (r.below(24) as u8); E63::V2 { kind, a, x } } 3 => {  E63::V3 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E63::V0 { name: f_0, rest: f_1, bytes: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E63::V1(f_0) => { f_0.borrows(f); } E63::V2 { kind: f_0, a: f_1, x: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E63::V3 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S64<'a> { pub t1: u32, pub name: (i128, u64, &'a str,) }
impl Model for S64<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<(i128, u64, &'static str,) as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.t1.val(o); o.push(','); self.name.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: u32 = <u32 as Model>::gen(r); let name: (i128, u64, &'static str,) = <(i128, u64, &'static str,) as Model>::gen(r); S64 { t1, name } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); self.name.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S65 { pub tag: char, #[speedy(default_on_eof)] pub kind: i128 }
impl Model for S65 {
    fn schema() -> String { struct_schema(&[fieldx(<char as Model>::schema(), false, false, &[]), fieldx(<i128 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.tag.val(o); o.push(','); self.kind.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let tag: char = <char as Model>::gen(r); let kind: i128 = <i128 as Model>::gen(r); S65 { tag, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.tag.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct S66(pub (u8, S8,), pub i128, #[speedy(skip)] pub bool, pub (i16, bool,));
impl Model for S66 {
    fn schema() -> String { struct_schema(&[fieldx(<(u8, S8,) as Model>::schema(), false, false, &[]), fieldx(<i128 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, true, &[]), fieldx(<(i16, bool,) as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: (u8, S8,) = <(u8, S8,) as Model>::gen(r); let t1: i128 = <i128 as Model>::gen(r); let t2: bool = <bool as Model>::gen(r); let t3: (i16, bool,) = <(i16, bool,) as Model>::gen(r); S66(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct S67(pub u8, pub S8, #[speedy(skip)] pub i16, #[speedy(skip)] pub u32, #[speedy(default_on_eof)] pub i128);
impl Model for S67 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<S8 as Model>::schema(), false, false, &[]), fieldx(<i16 as Model>::schema(), false, true, &[]), fieldx(<u32 as Model>::schema(), false, true, &[]), fieldx(<i128 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: S8 = <S8 as Model>::gen(r); let t2: i16 = <i16 as Model>::gen(r); let t3: u32 = <u32 as Model>::gen(r); let t4: i128 = <i128 as Model>::gen(r); S67(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S68<'a> { pub len: u8, #[speedy(length_type = u64_varint)] pub count: &'a str, #[speedy(length = len)] pub bytes: &'a str, #[speedy(length_type = u8)] pub a: &'a str, #[speedy(length = len % 4)] pub data: &'a str }
impl Model for S68<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"f\",\"i\":1},\"nm\":\"bytes\"}"), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"mod\",\"a\":{\"x\":\"f\",\"i\":1},\"b\":{\"x\":\"n\",\"n\":4}},\"nm\":\"data\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.len.val(o); o.push(','); self.count.val(o); o.push(','); self.bytes.val(o); o.push(','); self.a.val(o); o.push(','); self.data.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: u8 = (r.below(24) as u8); let count: &'static str = { gen_upto::<&'static str>(r, "varint") }; let bytes: &'static str = { let n = (len) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <&'static str as GenN>::gen_n(r, n) }; let a: &'static str = { gen_upto::<&'static str>(r, "u8") }; let data: &'static str = { let n = (len % 4) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <&'static str as GenN>::gen_n(r, n) }; S68 { len, count, bytes, a, data } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); self.count.borrows(f); self.bytes.borrows(f); self.a.borrows(f); self.data.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub enum E69 { #[speedy(tag = 128)] V0 }
impl Model for E69 {
    fn schema() -> String { enum_schema("u32", false, &[(128, vec![])]) }
    fn val(&self, o: &mut String) { match self { E69::V0 => { o.push_str("[1,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => {  E69::V0 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E69::V0 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K70 { pub size: u32, #[speedy(skip)] pub kind: u32 }
impl Model for K70 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.size).val(o); o.push(','); (self.kind).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let size: u32 = <u32 as Model>::gen(r); let kind: u32 = <u32 as Model>::gen(r); K70 { size, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.size.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K71 { pub bytes: u32, pub r#type: u32, pub reader: u32 }
impl Model for K71 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.bytes).val(o); o.push(','); (self.r#type).val(o); o.push(','); (self.reader).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let bytes: u32 = <u32 as Model>::gen(r); let r#type: u32 = <u32 as Model>::gen(r); let reader: u32 = <u32 as Model>::gen(r); K71 { bytes, r#type, reader } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.bytes.borrows(f); self.r#type.borrows(f); self.reader.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K72 { #[speedy(varint)] pub rest: u64, pub bytes: u64, pub r#type: u64 }
impl Model for K72 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.rest).val(o); o.push(','); (self.bytes).val(o); o.push(','); (self.r#type).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let rest: u64 = <u64 as Model>::gen(r); let bytes: u64 = <u64 as Model>::gen(r); let r#type: u64 = <u64 as Model>::gen(r); K72 { rest, bytes, r#type } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.rest.borrows(f); self.bytes.borrows(f); self.r#type.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K73 { pub value: u32, #[speedy(default_on_eof)] pub size: u32 }
impl Model for K73 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.value).val(o); o.push(','); (self.size).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let value: u32 = <u32 as Model>::gen(r); let size: u32 = <u32 as Model>::gen(r); K73 { value, size } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.value.borrows(f); self.size.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K74 { #[speedy(skip)] pub flags: u64, pub size: u64 }
impl Model for K74 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, true, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.flags).val(o); o.push(','); (self.size).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let flags: u64 = <u64 as Model>::gen(r); let size: u64 = <u64 as Model>::gen(r); K74 { flags, size } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.flags.borrows(f); self.size.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K75 { pub count: u8, pub out: u8 }
impl Model for K75 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.count).val(o); o.push(','); (self.out).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: u8 = <u8 as Model>::gen(r); let out: u8 = <u8 as Model>::gen(r); K75 { count, out } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); self.out.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K76 { #[speedy(varint)] pub tag: u64, pub a: u64, pub key: u64 }
impl Model for K76 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.tag).val(o); o.push(','); (self.a).val(o); o.push(','); (self.key).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let tag: u64 = <u64 as Model>::gen(r); let a: u64 = <u64 as Model>::gen(r); let key: u64 = <u64 as Model>::gen(r); K76 { tag, a, key } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.tag.borrows(f); self.a.borrows(f); self.key.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K77 { pub data: u32, #[speedy(skip)] pub bytes: u32, pub value: u32 }
impl Model for K77 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, true, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.data).val(o); o.push(','); (self.bytes).val(o); o.push(','); (self.value).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let data: u32 = <u32 as Model>::gen(r); let bytes: u32 = <u32 as Model>::gen(r); let value: u32 = <u32 as Model>::gen(r); K77 { data, bytes, value } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.data.borrows(f); self.bytes.borrows(f); self.value.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K78 { pub a: u32, pub size: u32, pub b: u32 }
impl Model for K78 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.a).val(o); o.push(','); (self.size).val(o); o.push(','); (self.b).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let a: u32 = <u32 as Model>::gen(r); let size: u32 = <u32 as Model>::gen(r); let b: u32 = <u32 as Model>::gen(r); K78 { a, size, b } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.a.borrows(f); self.size.borrows(f); self.b.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K79 { pub kind: u64, #[speedy(varint)] pub error: u64 }
impl Model for K79 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.kind).val(o); o.push(','); (self.error).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let kind: u64 = <u64 as Model>::gen(r); let error: u64 = <u64 as Model>::gen(r); K79 { kind, error } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.kind.borrows(f); self.error.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K80 { pub result: u16, pub kind: u16, #[speedy(default_on_eof)] pub len: u16 }
impl Model for K80 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.result).val(o); o.push(','); (self.kind).val(o); o.push(','); (self.len).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: u16 = <u16 as Model>::gen(r); let kind: u16 = <u16 as Model>::gen(r); let len: u16 = <u16 as Model>::gen(r); K80 { result, kind, len } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.result.borrows(f); self.kind.borrows(f); self.len.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(packed)] pub struct K81 { #[speedy(skip)] pub result: u8, pub size: u8 }
impl Model for K81 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, true, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); ({self.result}).val(o); o.push(','); ({self.size}).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: u8 = <u8 as Model>::gen(r); let size: u8 = <u8 as Model>::gen(r); K81 { result, size } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(packed)] pub struct K82 { pub t0: u32, pub reader: u32 }
impl Model for K82 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); ({self.t0}).val(o); o.push(','); ({self.reader}).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = <u32 as Model>::gen(r); let reader: u32 = <u32 as Model>::gen(r); K82 { t0, reader } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct K83 { #[speedy(skip)] pub r#type: u64 }
impl Model for K83 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.r#type).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let r#type: u64 = <u64 as Model>::gen(r); K83 { r#type } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.r#type.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct K84 { pub size: u32 }
impl Model for K84 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.size).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let size: u32 = <u32 as Model>::gen(r); K84 { size } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.size.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct K85 { #[speedy(varint)] pub size: u64 }
impl Model for K85 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.size).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let size: u64 = <u64 as Model>::gen(r); K85 { size } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.size.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K86 { pub a: u64, pub value: u64, pub error: u64 }
impl Model for K86 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.a).val(o); o.push(','); (self.value).val(o); o.push(','); (self.error).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let a: u64 = <u64 as Model>::gen(r); let value: u64 = <u64 as Model>::gen(r); let error: u64 = <u64 as Model>::gen(r); K86 { a, value, error } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.a.borrows(f); self.value.borrows(f); self.error.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K87 { #[speedy(varint)] pub length: u64, pub data: u64, pub error: u64 }
impl Model for K87 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.length).val(o); o.push(','); (self.data).val(o); o.push(','); (self.error).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: u64 = <u64 as Model>::gen(r); let data: u64 = <u64 as Model>::gen(r); let error: u64 = <u64 as Model>::gen(r); K87 { length, data, error } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); self.data.borrows(f); self.error.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K88 { pub kind: u32, pub x: u32, #[speedy(default_on_eof)] pub tag: u32 }
impl Model for K88 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.kind).val(o); o.push(','); (self.x).val(o); o.push(','); (self.tag).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let kind: u32 = <u32 as Model>::gen(r); let x: u32 = <u32 as Model>::gen(r); let tag: u32 = <u32 as Model>::gen(r); K88 { kind, x, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.kind.borrows(f); self.x.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K89 { #[speedy(skip)] pub kind: u32, pub result: u32 }
impl Model for K89 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, true, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.kind).val(o); o.push(','); (self.result).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let kind: u32 = <u32 as Model>::gen(r); let result: u32 = <u32 as Model>::gen(r); K89 { kind, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.kind.borrows(f); self.result.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K90 { #[speedy(varint)] pub b: u64, pub t0: u64, pub id: u64 }
impl Model for K90 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.b).val(o); o.push(','); (self.t0).val(o); o.push(','); (self.id).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let b: u64 = <u64 as Model>::gen(r); let t0: u64 = <u64 as Model>::gen(r); let id: u64 = <u64 as Model>::gen(r); K90 { b, t0, id } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.b.borrows(f); self.t0.borrows(f); self.id.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K91 { pub error: u32, #[speedy(default_on_eof)] pub out: u32 }
impl Model for K91 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.error).val(o); o.push(','); (self.out).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let error: u32 = <u32 as Model>::gen(r); let out: u32 = <u32 as Model>::gen(r); K91 { error, out } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.error.borrows(f); self.out.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K92 { pub result: u32, #[speedy(skip)] pub out: u32 }
impl Model for K92 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.result).val(o); o.push(','); (self.out).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: u32 = <u32 as Model>::gen(r); let out: u32 = <u32 as Model>::gen(r); K92 { result, out } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.result.borrows(f); self.out.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K93 { #[speedy(varint)] pub t1: u64, pub slice: u64 }
impl Model for K93 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t1).val(o); o.push(','); (self.slice).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: u64 = <u64 as Model>::gen(r); let slice: u64 = <u64 as Model>::gen(r); K93 { t1, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D94(pub u8, #[speedy(default_on_eof)] pub u8);
impl Model for D94 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); D94(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D95 { pub length: u16, #[speedy(default_on_eof)] #[speedy(varint)] pub rest: u64 }
impl Model for D95 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.length).val(o); o.push(','); (self.rest).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: u16 = <u16 as Model>::gen(r); let rest: u64 = <u64 as Model>::gen(r); D95 { length, rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); self.rest.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D96(pub u8, #[speedy(default_on_eof)] pub bool);
impl Model for D96 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: bool = <bool as Model>::gen(r); D96(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D97 { pub kind: u8, #[speedy(default_on_eof)] pub bytes: char }
impl Model for D97 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<char as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.kind).val(o); o.push(','); (self.bytes).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let kind: u8 = <u8 as Model>::gen(r); let bytes: char = <char as Model>::gen(r); D97 { kind, bytes } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.kind.borrows(f); self.bytes.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D98(pub u8, #[speedy(default_on_eof)] pub [u8; 2]);
impl Model for D98 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<[u8; 2] as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: [u8; 2] = <[u8; 2] as Model>::gen(r); D98(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D99(pub u16, #[speedy(default_on_eof)] pub [u32; 2]);
impl Model for D99 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<[u32; 2] as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: [u32; 2] = <[u32; 2] as Model>::gen(r); D99(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D100 { pub x: u16, #[speedy(default_on_eof)] pub rest: Option<u16> }
impl Model for D100 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<Option<u16> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.x).val(o); o.push(','); (self.rest).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let x: u16 = <u16 as Model>::gen(r); let rest: Option<u16> = <Option<u16> as Model>::gen(r); D100 { x, rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.x.borrows(f); self.rest.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D101(pub u8, #[speedy(default_on_eof)] pub Option<[u16; 2]>);
impl Model for D101 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<Option<[u16; 2]> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: Option<[u16; 2]> = <Option<[u16; 2]> as Model>::gen(r); D101(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D102<'a>(pub u8, #[speedy(default_on_eof)] pub Option<&'a str>);
impl Model for D102<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<Option<&'static str> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: Option<&'static str> = <Option<&'static str> as Model>::gen(r); D102(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D103 { pub reader: u8, #[speedy(default_on_eof)] pub b: [u16; 3] }
impl Model for D103 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<[u16; 3] as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.reader).val(o); o.push(','); (self.b).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let reader: u8 = <u8 as Model>::gen(r); let b: [u16; 3] = <[u16; 3] as Model>::gen(r); D103 { reader, b } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.reader.borrows(f); self.b.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D104(pub u16, #[speedy(default_on_eof)] pub (u8, u16,));
impl Model for D104 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<(u8, u16,) as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: (u8, u16,) = <(u8, u16,) as Model>::gen(r); D104(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D105(pub u16, #[speedy(default_on_eof)] pub u16);
impl Model for D105 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: u16 = <u16 as Model>::gen(r); D105(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D106(pub u16, #[speedy(default_on_eof)] pub [u16; 2]);
impl Model for D106 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<[u16; 2] as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: [u16; 2] = <[u16; 2] as Model>::gen(r); D106(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D107 { pub bytes: u8, #[speedy(default_on_eof)] pub x: u8 }
impl Model for D107 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.bytes).val(o); o.push(','); (self.x).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let bytes: u8 = <u8 as Model>::gen(r); let x: u8 = <u8 as Model>::gen(r); D107 { bytes, x } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.bytes.borrows(f); self.x.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D108(pub u8, #[speedy(default_on_eof)] pub (u8, u16,));
impl Model for D108 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<(u8, u16,) as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: (u8, u16,) = <(u8, u16,) as Model>::gen(r); D108(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D109 { pub data: u8, #[speedy(default_on_eof)] pub key: [u8; 4] }
impl Model for D109 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<[u8; 4] as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.data).val(o); o.push(','); (self.key).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let data: u8 = <u8 as Model>::gen(r); let key: [u8; 4] = <[u8; 4] as Model>::gen(r); D109 { data, key } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.data.borrows(f); self.key.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S110<'a>(pub (&'a str, f64,));
impl Model for S110<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<(&'static str, f64,) as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: (&'static str, f64,) = <(&'static str, f64,) as Model>::gen(r); S110(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct X111(#[speedy(varint)] pub u64);
impl Model for X111 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); X111(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct X112(#[speedy(varint)] pub u64, pub u8);
impl Model for X112 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); X112(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct X113<'a> { #[speedy(length_type = u64_varint)] pub id: &'a str }
impl Model for X113<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.id).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let id: &'static str = { gen_upto::<&'static str>(r, "varint") }; X113 { id } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.id.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct X114<'a> { #[speedy(length_type = u64_varint)] pub slice: &'a str, #[speedy(varint)] pub id: u64 }
impl Model for X114<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.slice).val(o); o.push(','); (self.id).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let slice: &'static str = { gen_upto::<&'static str>(r, "varint") }; let id: u64 = <u64 as Model>::gen(r); X114 { slice, id } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.slice.borrows(f); self.id.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct X115(#[speedy(varint)] pub u64);
impl Model for X115 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); X115(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct X116(#[speedy(varint)] pub u64);
impl Model for X116 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); X116(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E117<'a> { V0 { out: &'a str } }
impl Model for E117<'static> {
    fn schema() -> String { enum_schema("varint", false, &[(0, vec![fieldx(<&'static str as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E117::V0 { out: f_0 } => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let out: &'static str = <&'static str as Model>::gen(r); E117::V0 { out } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E117::V0 { out: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E118 { #[speedy(tag = 12026588796693393188)] V0(u8, S6), #[speedy(tag = 268435456)] V1, #[speedy(tag = 13564128121889161815)] V2(u128), #[speedy(tag = 18446744073709551614)] V3, #[speedy(tag = 562949953421312)] V4(([f32; 0], [u16; 2], u16,)), V5([Option<i128>; 2]) }
impl Model for E118 {
    fn schema() -> String { enum_schema("varint", false, &[(12026588796693393188, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<S6 as Model>::schema(), false, false, &[])]), (268435456, vec![]), (13564128121889161815, vec![fieldx(<u128 as Model>::schema(), false, false, &[])]), (18446744073709551614, vec![]), (562949953421312, vec![fieldx(<([f32; 0], [u16; 2], u16,) as Model>::schema(), false, false, &[])]), (562949953421313, vec![fieldx(<[Option<i128>; 2] as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E118::V0(f_0, f_1) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E118::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E118::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E118::V3 => { o.push_str("[4,[");  o.push_str("]]"); } E118::V4(f_0) => { o.push_str("[5,["); f_0.val(o); o.push_str("]]"); } E118::V5(f_0) => { o.push_str("[6,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let t0: u8 = <u8 as Model>::gen(r); let t1: S6 = <S6 as Model>::gen(r); E118::V0(t0, t1) } 1 => {  E118::V1 } 2 => { let t0: u128 = <u128 as Model>::gen(r); E118::V2(t0) } 3 => {  E118::V3 } 4 => { let t0: ([f32; 0], [u16; 2], u16,) = <([f32; 0], [u16; 2], u16,) as Model>::gen(r); E118::V4(t0) } 5 => { let t0: [Option<i128>; 2] = <[Option<i128>; 2] as Model>::gen(r); E118::V5(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E118::V0(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E118::V1 => {  } E118::V2(f_0) => { f_0.borrows(f); } E118::V3 => {  } E118::V4(f_0) => { f_0.borrows(f); } E118::V5(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u7, peek_tag)] pub enum E119 { V0(u8, Option<char>), #[speedy(tag = 3)] V1(u8, [bool; 2]), #[speedy(tag = 127)] V2, #[speedy(tag = 126)] V3 { count: u8, t0: [f32; 2] }, #[speedy(tag = 22)] V4(u8), #[speedy(tag = 125)] V5(u8) }
impl Model for E119 {
    fn schema() -> String { enum_schema("u7", true, &[(0, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<Option<char> as Model>::schema(), false, false, &[])]), (3, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<[bool; 2] as Model>::schema(), false, false, &[])]), (127, vec![]), (126, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<[f32; 2] as Model>::schema(), false, false, &[])]), (22, vec![fieldx(<u8 as Model>::schema(), false, false, &[])]), (125, vec![fieldx(<u8 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E119::V0(f_0, f_1) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E119::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E119::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E119::V3 { count: f_0, t0: f_1 } => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E119::V4(f_0) => { o.push_str("[5,["); f_0.val(o); o.push_str("]]"); } E119::V5(f_0) => { o.push_str("[6,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(5) { 0 => { let t0: u8 = (0u64 as u8); let t1: Option<char> = <Option<char> as Model>::gen(r); E119::V0(t0, t1) } 1 => { let t0: u8 = (3u64 as u8); let t1: [bool; 2] = <[bool; 2] as Model>::gen(r); E119::V1(t0, t1) } 2 => { let count: u8 = (126u64 as u8); let t0: [f32; 2] = <[f32; 2] as Model>::gen(r); E119::V3 { count, t0 } } 3 => { let t0: u8 = (22u64 as u8); E119::V4(t0) } 4 => { let t0: u8 = (125u64 as u8); E119::V5(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E119::V0(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E119::V1(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E119::V2 => {  } E119::V3 { count: f_0, t0: f_1 } => { f_0.borrows(f); f_1.borrows(f); } E119::V4(f_0) => { f_0.borrows(f); } E119::V5(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u7)] pub enum E120 { #[speedy(tag = 0)] V0(u8), #[speedy(tag = 101)] V1(u8), V2(u8, (u16, S10, char,)), #[speedy(tag = 1)] V3(u8) }
impl Model for E120 {
    fn schema() -> String { enum_schema("u7", true, &[(0, vec![fieldx(<u8 as Model>::schema(), false, false, &[])]), (101, vec![fieldx(<u8 as Model>::schema(), false, false, &[])]), (102, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<(u16, S10, char,) as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<u8 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E120::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E120::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E120::V2(f_0, f_1) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E120::V3(f_0) => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let t0: u8 = (0u64 as u8); E120::V0(t0) } 1 => { let t0: u8 = (101u64 as u8); E120::V1(t0) } 2 => { let t0: u8 = (102u64 as u8); let t1: (u16, S10, char,) = <(u16, S10, char,) as Model>::gen(r); E120::V2(t0, t1) } 3 => { let t0: u8 = (1u64 as u8); E120::V3(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E120::V0(f_0) => { f_0.borrows(f); } E120::V1(f_0) => { f_0.borrows(f); } E120::V2(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E120::V3(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8, peek_tag)] pub enum E121 { #[speedy(tag = 139)] V0(u8), V1(u8) }
impl Model for E121 {
    fn schema() -> String { enum_schema("u8", true, &[(139, vec![fieldx(<u8 as Model>::schema(), false, false, &[])]), (140, vec![fieldx(<u8 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E121::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E121::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => { let t0: u8 = (139u64 as u8); E121::V0(t0) } 1 => { let t0: u8 = (140u64 as u8); E121::V1(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E121::V0(f_0) => { f_0.borrows(f); } E121::V1(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16, peek_tag)] pub enum E122 { V0(u16, u64) }
impl Model for E122 {
    fn schema() -> String { enum_schema("u16", true, &[(0, vec![fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E122::V0(f_0, f_1) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let t0: u16 = (0u64 as u16); let t1: u64 = <u64 as Model>::gen(r); E122::V0(t0, t1) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E122::V0(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16, peek_tag)] pub enum E123<'a> { V0 { length: u16, flags: [i8; 2], kind: &'a str } }
impl Model for E123<'static> {
    fn schema() -> String { enum_schema("u16", true, &[(0, vec![fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<[i8; 2] as Model>::schema(), false, false, &[]), fieldx(<&'static str as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E123::V0 { length: f_0, flags: f_1, kind: f_2 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let length: u16 = (0u64 as u16); let flags: [i8; 2] = <[i8; 2] as Model>::gen(r); let kind: &'static str = <&'static str as Model>::gen(r); E123::V0 { length, flags, kind } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E123::V0 { length: f_0, flags: f_1, kind: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u32)] pub enum E124 { #[speedy(tag = 0)] V0(u32, [Endianness; 2]), V1 { kind: u32 }, V2(u32), #[speedy(tag = 4294967293)] V3 { r#type: u32, tag: [[f32; 3]; 2] }, #[speedy(tag = 4294967294)] V4, #[speedy(tag = 90)] V5(u32, NonZeroI16, i16) }
impl Model for E124 {
    fn schema() -> String { enum_schema("u32", true, &[(0, vec![fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<[Endianness; 2] as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<u32 as Model>::schema(), false, false, &[])]), (2, vec![fieldx(<u32 as Model>::schema(), false, false, &[])]), (4294967293, vec![fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<[[f32; 3]; 2] as Model>::schema(), false, false, &[])]), (4294967294, vec![]), (90, vec![fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<NonZeroI16 as Model>::schema(), false, false, &[]), fieldx(<i16 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E124::V0(f_0, f_1) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E124::V1 { kind: f_0 } => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E124::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E124::V3 { r#type: f_0, tag: f_1 } => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E124::V4 => { o.push_str("[5,[");  o.push_str("]]"); } E124::V5(f_0, f_1, f_2) => { o.push_str("[6,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(5) { 0 => { let t0: u32 = (0u64 as u32); let t1: [Endianness; 2] = <[Endianness; 2] as Model>::gen(r); E124::V0(t0, t1) } 1 => { let kind: u32 = (1u64 as u32); E124::V1 { kind } } 2 => { let t0: u32 = (2u64 as u32); E124::V2(t0) } 3 => { let r#type: u32 = (4294967293u64 as u32); let tag: [[f32; 3]; 2] = <[[f32; 3]; 2] as Model>::gen(r); E124::V3 { r#type, tag } } 4 => { let t0: u32 = (90u64 as u32); let t1: NonZeroI16 = <NonZeroI16 as Model>::gen(r); let t2: i16 = <i16 as Model>::gen(r); E124::V5(t0, t1, t2) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E124::V0(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E124::V1 { kind: f_0 } => { f_0.borrows(f); } E124::V2(f_0) => { f_0.borrows(f); } E124::V3 { r#type: f_0, tag: f_1 } => { f_0.borrows(f); f_1.borrows(f); } E124::V4 => {  } E124::V5(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64, peek_tag)] pub enum E125 { #[speedy(tag = 165)] V0(u64, bool, Option<[bool; 1]>) }
impl Model for E125 {
    fn schema() -> String { enum_schema("u64", true, &[(165, vec![fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[]), fieldx(<Option<[bool; 1]> as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E125::V0(f_0, f_1, f_2) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let t0: u64 = (165u64 as u64); let t1: bool = <bool as Model>::gen(r); let t2: Option<[bool; 1]> = <Option<[bool; 1]> as Model>::gen(r); E125::V0(t0, t1, t2) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E125::V0(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint, peek_tag)] pub enum E126 { #[speedy(tag = 1873662043)] V0(#[speedy(varint)] u64), V1(#[speedy(varint)] u64) }
impl Model for E126 {
    fn schema() -> String { enum_schema("varint", true, &[(1873662043, vec![fieldx(varint_schema(), false, false, &[])]), (1873662044, vec![fieldx(varint_schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E126::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E126::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => { let t0: u64 = (1873662043u64 as u64); E126::V0(t0) } 1 => { let t0: u64 = (1873662044u64 as u64); E126::V1(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E126::V0(f_0) => { f_0.borrows(f); } E126::V1(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16, peek_tag)] pub enum E127<'a> { V0(u16, u32), V1(u16, char), #[speedy(tag = 16)] V2, #[speedy(tag = 65533)] V3(u16, &'a str), V4(u16, f64, Option<u16>), V5 { name: u16 } }
impl Model for E127<'static> {
    fn schema() -> String { enum_schema("u16", true, &[(0, vec![fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<char as Model>::schema(), false, false, &[])]), (16, vec![]), (65533, vec![fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<&'static str as Model>::schema(), false, false, &[])]), (65534, vec![fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<f64 as Model>::schema(), false, false, &[]), fieldx(<Option<u16> as Model>::schema(), false, false, &[])]), (65535, vec![fieldx(<u16 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E127::V0(f_0, f_1) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E127::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E127::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E127::V3(f_0, f_1) => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E127::V4(f_0, f_1, f_2) => { o.push_str("[5,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E127::V5 { name: f_0 } => { o.push_str("[6,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(5) { 0 => { let t0: u16 = (0u64 as u16); let t1: u32 = <u32 as Model>::gen(r); E127::V0(t0, t1) } 1 => { let t0: u16 = (1u64 as u16); let t1: char = <char as Model>::gen(r); E127::V1(t0, t1) } 2 => { let t0: u16 = (65533u64 as u16); let t1: &'static str = <&'static str as Model>::gen(r); E127::V3(t0, t1) } 3 => { let t0: u16 = (65534u64 as u16); let t1: f64 = <f64 as Model>::gen(r); let t2: Option<u16> = <Option<u16> as Model>::gen(r); E127::V4(t0, t1, t2) } 4 => { let name: u16 = (65535u64 as u16); E127::V5 { name } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E127::V0(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E127::V1(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E127::V2 => {  } E127::V3(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E127::V4(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E127::V5 { name: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u64_varint)] pub enum E128 { V0(#[speedy(varint)] u64) }
impl Model for E128 {
    fn schema() -> String { enum_schema("varint", true, &[(0, vec![fieldx(varint_schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E128::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let t0: u64 = (0u64 as u64); E128::V0(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E128::V0(f_0) => { f_0.borrows(f); } } let _ = f; }
}
pub fn register(v: &mut Vec<TypeOps>) {
    reg!(v, "d basic dref"; S1<'static>);
    reg!(v, "d basic dref"; (u8, S1<'static>, u16));
    reg!(v, "d basic"; S2);
    reg!(v, "d basic"; Option<S2>);
    reg!(v, "d basic"; S3);
    reg!(v, "d basic"; E4);
    reg!(v, "d basic"; (u8, E4, u16));
    reg!(v, "d prim"; S5);
    reg!(v, "d prim"; S6);
    reg_be!(v, "d prim"; [S6; 2]);
    reg!(v, "d prim"; S7);
    reg!(v, "d prim"; S8);
    reg!(v, "d prim"; [S8; 3]);
    reg!(v, "d prim"; S9);
    reg!(v, "d prim"; [S9; 3]);
    reg_le!(v, "d prim"; [S9; 2]);
    reg!(v, "d prim"; S10);
    reg!(v, "d prim"; S11);
    reg!(v, "d prim"; S12);
    reg!(v, "d prim"; S13);
    reg!(v, "d prim"; [S13; 3]);
    reg_le!(v, "d prim"; [S13; 2]);
    reg!(v, "d prim"; Q14);
    reg!(v, "d prim"; Q15);
    reg!(v, "d prim"; Q16);
    reg!(v, "d prim"; [Q16; 3]);
    reg!(v, "d prim"; Q17);
    reg!(v, "d prim"; [Q17; 3]);
    reg!(v, "d prim"; S18);
    reg!(v, "d prim"; [S18; 2]);
    reg!(v, "d len open dref"; S19<'static>);
    reg!(v, "d len open dref"; S20<'static>);
    reg!(v, "d len open dref"; S21<'static>);
    reg!(v, "d len dref"; S22<'static>);
    reg!(v, "d len dref"; L23<'static>);
    reg!(v, "d len dref"; L24<'static>);
    reg!(v, "d len dref"; L25<'static>);
    reg!(v, "d len dref"; L26<'static>);
    reg!(v, "d len dref"; L27<'static>);
    reg!(v, "d len dref"; L28<'static>);
    reg!(v, "d len dref"; L29<'static>);
    reg!(v, "d len dref"; L30<'static>);
    reg!(v, "d len dref"; L31<'static>);
    reg!(v, "d len dref"; L32<'static>);
    reg!(v, "d len dref"; L33<'static>);
    reg!(v, "d len dref"; L34<'static>);
    reg!(v, "d len dref"; L35<'static>);
    reg!(v, "d len dref"; L36<'static>);
    reg!(v, "d len dref"; L37<'static>);
    reg!(v, "d len dref"; L38<'static>);
    reg!(v, "d len dref"; L39<'static>);
    reg!(v, "d len dref"; L40<'static>);
    reg!(v, "d len dref"; L41<'static>);
    reg!(v, "d len dref"; L42<'static>);
    reg!(v, "d len dref"; L43<'static>);
    reg!(v, "d len dref"; L44<'static>);
    reg!(v, "d len dref"; L45<'static>);
    reg!(v, "d len dref"; L46<'static>);
    reg!(v, "d len dref"; L47<'static>);
    reg!(v, "d len dref"; L48<'static>);
    reg!(v, "d len dref"; L49<'static>);
    reg!(v, "d enum"; E50);
    reg!(v, "d enum"; E51);
    reg!(v, "d enum"; E52);
    reg!(v, "d enum"; E53);
    reg!(v, "d enum"; E54);
    reg!(v, "d enum"; E55);
    reg!(v, "d enum"; E56);
    reg!(v, "d enum"; E57);
    reg!(v, "d enum"; E58);
    reg!(v, "d enum"; E59);
    reg!(v, "d enum"; E60<'static>);
    reg!(v, "d enum"; E61);
    reg!(v, "d enum"; E62);
    reg!(v, "d enum open dref"; E63<'static>);
    reg!(v, "d attr"; S64<'static>);
    reg!(v, "d attr open"; S65);
    reg!(v, "d attr"; S66);
    reg!(v, "d attr open"; S67);
    reg!(v, "d attr dref"; S68<'static>);
    reg!(v, "d attr"; E69);
    reg!(v, "d attr"; K70);
    reg!(v, "d attr"; [K70; 3]);
    reg!(v, "d attr"; K71);
    reg!(v, "d attr"; K72);
    reg!(v, "d attr"; [K72; 3]);
    reg!(v, "d attr open"; K73);
    reg!(v, "d attr"; K74);
    reg!(v, "d attr"; (u8, [K74; 2]));
    reg!(v, "d attr"; K75);
    reg!(v, "d attr"; [K75; 3]);
    reg!(v, "d attr"; (u8, [K75; 2]));
    reg!(v, "d attr"; K76);
    reg!(v, "d attr"; [K76; 3]);
    reg!(v, "d attr"; K77);
    reg!(v, "d attr"; (u8, [K77; 2]));
    reg!(v, "d attr"; K78);
    reg!(v, "d attr"; (u8, [K78; 2]));
    reg!(v, "d attr"; K79);
    reg!(v, "d attr"; (u8, [K79; 2]));
    reg!(v, "d attr open"; K80);
    reg!(v, "d attr"; K81);
    reg!(v, "d attr"; [K81; 3]);
    reg!(v, "d attr"; K82);
    reg!(v, "d attr"; [K82; 3]);
    reg!(v, "d attr"; K83);
    reg!(v, "d attr"; (u8, [K83; 2]));
    reg!(v, "d attr"; K84);
    reg!(v, "d attr"; K85);
    reg!(v, "d attr"; (u8, [K85; 2]));
    reg!(v, "d attr"; K86);
    reg!(v, "d attr"; [K86; 3]);
    reg!(v, "d attr"; K87);
    reg!(v, "d attr"; (u8, [K87; 2]));
    reg!(v, "d attr"; [K87; 3]);
    reg!(v, "d attr open"; K88);
    reg!(v, "d attr"; K89);
    reg!(v, "d attr"; [K89; 3]);
    reg!(v, "d attr"; K90);
    reg!(v, "d attr open"; K91);
    reg!(v, "d attr"; K92);
    reg!(v, "d attr"; (u8, [K92; 2]));
    reg!(v, "d attr"; K93);
    reg!(v, "d attr"; (u8, [K93; 2]));
    reg!(v, "d attr open"; D94);
    reg!(v, "d attr open"; D95);
    reg!(v, "d attr open"; D96);
    reg!(v, "d attr open"; D97);
    reg!(v, "d attr open"; D98);
    reg!(v, "d attr open"; D99);
    reg!(v, "d attr open"; D100);
    reg!(v, "d attr open"; D101);
    reg!(v, "d attr open dref"; D102<'static>);
    reg!(v, "d attr open"; D103);
    reg!(v, "d attr open"; D104);
    reg!(v, "d attr open"; D105);
    reg!(v, "d attr open"; D106);
    reg!(v, "d attr open"; D107);
    reg!(v, "d attr open"; D108);
    reg!(v, "d attr open"; D109);
    reg!(v, "d varint"; S110<'static>);
    reg!(v, "d varint"; Option<S110<'static>>);
    reg!(v, "d varint"; X111);
    reg!(v, "d varint"; X112);
    reg!(v, "d varint dref"; X113<'static>);
    reg!(v, "d varint dref"; X114<'static>);
    reg!(v, "d varint"; X115);
    reg!(v, "d varint"; [X115; 2]);
    reg!(v, "d varint"; X116);
    reg!(v, "d varint"; [X116; 2]);
    reg!(v, "d varint dref"; E117<'static>);
    reg!(v, "d varint"; E118);
    reg!(v, "d enum peek"; E119);
    reg!(v, "d enum peek"; Option<E119>);
    reg!(v, "d enum peek"; (u8, E119, u16));
    reg!(v, "d enum peek"; E120);
    reg!(v, "d enum peek"; E121);
    reg!(v, "d enum peek"; [E121; 3]);
    reg!(v, "d enum peek"; E122);
    reg!(v, "d enum peek"; (u8, E122, u16));
    reg!(v, "d enum peek dref"; E123<'static>);
    reg!(v, "d enum peek"; E124);
    reg!(v, "d enum peek"; E125);
    reg!(v, "d enum peek"; Option<E125>);
    reg!(v, "d enum peek"; E126);
    reg!(v, "d enum peek"; (u8, E126, u16));
    reg!(v, "d enum peek dref"; E127<'static>);
    reg!(v, "d enum peek"; E128);
}
