// Made by tools/gen_derive.py. Derived types and their schemas.
use harness::model::*;
use harness::ops::TypeOps;
use harness::util::*;
use harness::{reg, reg_be, reg_le};
use speedy::{Endianness, Readable, Writable};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::net::*;
use std::num::*;
use std::time::{Duration, SystemTime};
use uuid::Uuid;

#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct S1(pub String, pub [BTreeMap<char, u128>; 0], pub u8, pub BTreeSet<u32>, pub f64, pub IpAddr);
impl Model for S1 {
    fn schema() -> String { struct_schema(&[fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<[BTreeMap<char, u128>; 0] as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<BTreeSet<u32> as Model>::schema(), false, false, &[]), fieldx(<f64 as Model>::schema(), false, false, &[]), fieldx(<IpAddr as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(','); self.5.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: String = <String as Model>::gen(r); let t1: [BTreeMap<char, u128>; 0] = <[BTreeMap<char, u128>; 0] as Model>::gen(r); let t2: u8 = <u8 as Model>::gen(r); let t3: BTreeSet<u32> = <BTreeSet<u32> as Model>::gen(r); let t4: f64 = <f64 as Model>::gen(r); let t5: IpAddr = <IpAddr as Model>::gen(r); S1(t0, t1, t2, t3, t4, t5) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); self.5.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S2 { pub out: [IpAddr; 3], pub x: u32, pub id: char }
impl Model for S2 {
    fn schema() -> String { struct_schema(&[fieldx(<[IpAddr; 3] as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<char as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.out.val(o); o.push(','); self.x.val(o); o.push(','); self.id.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: [IpAddr; 3] = <[IpAddr; 3] as Model>::gen(r); let x: u32 = <u32 as Model>::gen(r); let id: char = <char as Model>::gen(r); S2 { out, x, id } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.out.borrows(f); self.x.borrows(f); self.id.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S3;
impl Model for S3 {
    fn schema() -> String { struct_schema(&[]) }
    fn val(&self, o: &mut String) { o.push('[');  o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| {  S3 }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub enum E4<'a> { V0(i32, NonZeroU32), V1, V2(BTreeSet<u8>, [Cow<'a, BTreeSet<u16>>; 2]) }
impl Model for E4<'static> {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(<i32 as Model>::schema(), false, false, &[]), fieldx(<NonZeroU32 as Model>::schema(), false, false, &[])]), (1, vec![]), (2, vec![fieldx(<BTreeSet<u8> as Model>::schema(), false, false, &[]), fieldx(<[Cow<'static, BTreeSet<u16>>; 2] as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E4::V0(f_0, f_1) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E4::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E4::V2(f_0, f_1) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let t0: i32 = <i32 as Model>::gen(r); let t1: NonZeroU32 = <NonZeroU32 as Model>::gen(r); E4::V0(t0, t1) } 1 => {  E4::V1 } 2 => { let t0: BTreeSet<u8> = <BTreeSet<u8> as Model>::gen(r); let t1: [Cow<'static, BTreeSet<u16>>; 2] = <[Cow<'static, BTreeSet<u16>>; 2] as Model>::gen(r); E4::V2(t0, t1) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E4::V0(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E4::V1 => {  } E4::V2(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S5 { pub flags: i16, pub slice: u8 }
impl Model for S5 {
    fn schema() -> String { struct_schema(&[fieldx(<i16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.flags.val(o); o.push(','); self.slice.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let flags: i16 = <i16 as Model>::gen(r); let slice: u8 = <u8 as Model>::gen(r); S5 { flags, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.flags.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S6(pub i16, pub i16);
impl Model for S6 {
    fn schema() -> String { struct_schema(&[fieldx(<i16 as Model>::schema(), false, false, &[]), fieldx(<i16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: i16 = <i16 as Model>::gen(r); let t1: i16 = <i16 as Model>::gen(r); S6(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct S7(pub i8);
impl Model for S7 {
    fn schema() -> String { struct_schema(&[fieldx(<i8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); { let x = self.0; x.val(o); } o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: i8 = <i8 as Model>::gen(r); S7(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { { let x = self.0; x.borrows(f); } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C, packed)] pub struct S8 { pub slice: u8, pub flags: u8, pub value: u8, pub key: u8 }
impl Model for S8 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); { let x = self.slice; x.val(o); } o.push(','); { let x = self.flags; x.val(o); } o.push(','); { let x = self.value; x.val(o); } o.push(','); { let x = self.key; x.val(o); } o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let slice: u8 = <u8 as Model>::gen(r); let flags: u8 = <u8 as Model>::gen(r); let value: u8 = <u8 as Model>::gen(r); let key: u8 = <u8 as Model>::gen(r); S8 { slice, flags, value, key } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { { let x = self.slice; x.borrows(f); } { let x = self.flags; x.borrows(f); } { let x = self.value; x.borrows(f); } { let x = self.key; x.borrows(f); } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(transparent)] pub struct S9(pub i16);
impl Model for S9 {
    fn schema() -> String { struct_schema(&[fieldx(<i16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: i16 = <i16 as Model>::gen(r); S9(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S10 { pub len: [u16; 2], pub name: [u16; 2], pub tag: u16, pub rest: [u16; 2], pub t1: [u16; 2] }
impl Model for S10 {
    fn schema() -> String { struct_schema(&[fieldx(<[u16; 2] as Model>::schema(), false, false, &[]), fieldx(<[u16; 2] as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<[u16; 2] as Model>::schema(), false, false, &[]), fieldx(<[u16; 2] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.len.val(o); o.push(','); self.name.val(o); o.push(','); self.tag.val(o); o.push(','); self.rest.val(o); o.push(','); self.t1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: [u16; 2] = <[u16; 2] as Model>::gen(r); let name: [u16; 2] = <[u16; 2] as Model>::gen(r); let tag: u16 = <u16 as Model>::gen(r); let rest: [u16; 2] = <[u16; 2] as Model>::gen(r); let t1: [u16; 2] = <[u16; 2] as Model>::gen(r); S10 { len, name, tag, rest, t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); self.name.borrows(f); self.tag.borrows(f); self.rest.borrows(f); self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S11 { pub name: i32, pub id: i32 }
impl Model for S11 {
    fn schema() -> String { struct_schema(&[fieldx(<i32 as Model>::schema(), false, false, &[]), fieldx(<i32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.name.val(o); o.push(','); self.id.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: i32 = <i32 as Model>::gen(r); let id: i32 = <i32 as Model>::gen(r); S11 { name, id } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); self.id.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S12(pub u8, pub u8, pub u8, pub u8, pub u8);
impl Model for S12 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); let t2: u8 = <u8 as Model>::gen(r); let t3: u8 = <u8 as Model>::gen(r); let t4: u8 = <u8 as Model>::gen(r); S12(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct S13(pub [u32; 2], pub [u8; 3], pub u64, pub u16, pub u16);
impl Model for S13 {
    fn schema() -> String { struct_schema(&[fieldx(<[u32; 2] as Model>::schema(), false, false, &[]), fieldx(<[u8; 3] as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); { let x = self.0; x.val(o); } o.push(','); { let x = self.1; x.val(o); } o.push(','); { let x = self.2; x.val(o); } o.push(','); { let x = self.3; x.val(o); } o.push(','); { let x = self.4; x.val(o); } o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: [u32; 2] = <[u32; 2] as Model>::gen(r); let t1: [u8; 3] = <[u8; 3] as Model>::gen(r); let t2: u64 = <u64 as Model>::gen(r); let t3: u16 = <u16 as Model>::gen(r); let t4: u16 = <u16 as Model>::gen(r); S13(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { { let x = self.0; x.borrows(f); } { let x = self.1; x.borrows(f); } { let x = self.2; x.borrows(f); } { let x = self.3; x.borrows(f); } { let x = self.4; x.borrows(f); } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct Q14 { pub error: u8, pub size: u8, pub count: u16 }
impl Model for Q14 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.error).val(o); o.push(','); (self.size).val(o); o.push(','); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let error: u8 = <u8 as Model>::gen(r); let size: u8 = <u8 as Model>::gen(r); let count: u16 = <u16 as Model>::gen(r); Q14 { error, size, count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.error.borrows(f); self.size.borrows(f); self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct Q15 { pub y: u16, pub result: u8, pub count: u8 }
impl Model for Q15 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.y).val(o); o.push(','); (self.result).val(o); o.push(','); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: u16 = <u16 as Model>::gen(r); let result: u8 = <u8 as Model>::gen(r); let count: u8 = <u8 as Model>::gen(r); Q15 { y, result, count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.y.borrows(f); self.result.borrows(f); self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct Q16(pub u8, pub u16, pub u8);
impl Model for Q16 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: u16 = <u16 as Model>::gen(r); let t2: u8 = <u8 as Model>::gen(r); Q16(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct Q17 { pub result: u8, pub id: u32, pub count: u8, pub b: u32, pub bytes: u16 }
impl Model for Q17 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.result).val(o); o.push(','); (self.id).val(o); o.push(','); (self.count).val(o); o.push(','); (self.b).val(o); o.push(','); (self.bytes).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: u8 = <u8 as Model>::gen(r); let id: u32 = <u32 as Model>::gen(r); let count: u8 = <u8 as Model>::gen(r); let b: u32 = <u32 as Model>::gen(r); let bytes: u16 = <u16 as Model>::gen(r); Q17 { result, id, count, b, bytes } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.result.borrows(f); self.id.borrows(f); self.count.borrows(f); self.b.borrows(f); self.bytes.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] #[speedy(unsafe_is_primitive = always)] pub struct S18 { pub kind: u32, pub reader: u32, pub id: u32 }
impl Model for S18 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.kind.val(o); o.push(','); self.reader.val(o); o.push(','); self.id.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let kind: u32 = <u32 as Model>::gen(r); let reader: u32 = <u32 as Model>::gen(r); let id: u32 = <u32 as Model>::gen(r); S18 { kind, reader, id } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.kind.borrows(f); self.reader.borrows(f); self.id.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S19 { pub data: u8, pub bytes: Option<i8>, pub r#type: u32, pub flags: u8, #[speedy(length = ..)] pub name: Vec<i128> }
impl Model for S19 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<Option<i8> as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<i128> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.data.val(o); o.push(','); self.bytes.val(o); o.push(','); self.r#type.val(o); o.push(','); self.flags.val(o); o.push(','); self.name.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let data: u8 = (r.below(24) as u8); let bytes: Option<i8> = <Option<i8> as Model>::gen(r); let r#type: u32 = (r.below(24) as u32); let flags: u8 = (r.below(24) as u8); let name: Vec<i128> = <Vec<i128> as Model>::gen(r); S19 { data, bytes, r#type, flags, name } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.data.borrows(f); self.bytes.borrows(f); self.r#type.borrows(f); self.flags.borrows(f); self.name.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S20(#[speedy(length_type = u32)] pub BTreeSet<u64>, pub i16, #[speedy(length_type = u7)] pub Vec<BTreeMap<String, u64>>, #[speedy(length = ..)] pub Vec<char>);
impl Model for S20 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeSet<u64> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(<i16 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<BTreeMap<String, u64>> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(with_lt(<Vec<char> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: BTreeSet<u64> = { gen_upto::<BTreeSet<u64>>(r, "u32") }; let t1: i16 = <i16 as Model>::gen(r); let t2: Vec<BTreeMap<String, u64>> = { gen_upto::<Vec<BTreeMap<String, u64>>>(r, "u7") }; let t3: Vec<char> = <Vec<char> as Model>::gen(r); S20(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S21(#[speedy(varint)] pub u64, pub u8, #[speedy(length = t1 / 3)] pub BTreeSet<u64>, #[speedy(length_type = u64_varint)] pub Option<Vec<u64>>);
impl Model for S21 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<BTreeSet<u64> as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"div\",\"a\":{\"x\":\"f\",\"i\":2},\"b\":{\"x\":\"n\",\"n\":3}},\"nm\":\"t2\"}"), false, false, &[]), fieldx(with_lt(<Option<Vec<u64>> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let t1: u8 = (r.below(24) as u8); let t2: BTreeSet<u64> = { let n = (t1 / 3) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <BTreeSet<u64> as GenN>::gen_n(r, n) }; let t3: Option<Vec<u64>> = { gen_upto::<Option<Vec<u64>>>(r, "varint") }; S21(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S22<'a> { pub a: String, #[speedy(length_type = u32)] pub error: Cow<'a, BTreeMap<u16, u8>> }
impl Model for S22<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<String as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeMap<u16, u8>> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.a.val(o); o.push(','); self.error.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let a: String = <String as Model>::gen(r); let error: Cow<'static, BTreeMap<u16, u8>> = { gen_upto::<Cow<'static, BTreeMap<u16, u8>>>(r, "u32") }; S22 { a, error } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.a.borrows(f); self.error.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L23(#[speedy(length_type = u7)] pub Vec<u64>);
impl Model for L23 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<u64> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<u64> = { gen_upto::<Vec<u64>>(r, "u7") }; L23(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L24 { #[speedy(length_type = u7)] pub reader: String }
impl Model for L24 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.reader).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let reader: String = { gen_upto::<String>(r, "u7") }; L24 { reader } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.reader.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L25<'a>(#[speedy(length_type = u7)] pub Cow<'a, [u32]>);
impl Model for L25<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, [u32]> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Cow<'static, [u32]> = { gen_upto::<Cow<'static, [u32]>>(r, "u7") }; L25(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L26<'a> { #[speedy(length_type = u7)] pub data: &'a str }
impl Model for L26<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.data).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let data: &'static str = { gen_upto::<&'static str>(r, "u7") }; L26 { data } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.data.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L27(#[speedy(length_type = u7)] pub Vec<Option<u16>>);
impl Model for L27 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<Option<u16>> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<Option<u16>> = { gen_upto::<Vec<Option<u16>>>(r, "u7") }; L27(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L28(#[speedy(length_type = u8)] pub String);
impl Model for L28 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: String = { gen_upto::<String>(r, "u8") }; L28(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L29 { #[speedy(length_type = u8)] pub len: BTreeMap<u8, u16> }
impl Model for L29 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<u8, u16> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.len).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: BTreeMap<u8, u16> = { gen_upto::<BTreeMap<u8, u16>>(r, "u8") }; L29 { len } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L30<'a> { #[speedy(length_type = u8)] pub t1: Cow<'a, [u32]> }
impl Model for L30<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, [u32]> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: Cow<'static, [u32]> = { gen_upto::<Cow<'static, [u32]>>(r, "u8") }; L30 { t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L31 { #[speedy(length_type = u8)] pub out: Option<Vec<u8>> }
impl Model for L31 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<Vec<u8>> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.out).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: Option<Vec<u8>> = { gen_upto::<Option<Vec<u8>>>(r, "u8") }; L31 { out } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.out.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L32 { #[speedy(length_type = u16)] pub y: BTreeMap<u8, u16> }
impl Model for L32 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<u8, u16> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.y).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: BTreeMap<u8, u16> = { gen_upto::<BTreeMap<u8, u16>>(r, "u16") }; L32 { y } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.y.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L33 { #[speedy(length_type = u16)] pub result: BTreeSet<u16> }
impl Model for L33 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeSet<u16> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.result).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: BTreeSet<u16> = { gen_upto::<BTreeSet<u16>>(r, "u16") }; L33 { result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.result.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L34 { #[speedy(length_type = u16)] pub bytes: Vec<Option<u16>> }
impl Model for L34 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<Option<u16>> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.bytes).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let bytes: Vec<Option<u16>> = { gen_upto::<Vec<Option<u16>>>(r, "u16") }; L34 { bytes } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.bytes.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L35 { #[speedy(length_type = u32)] pub bytes: Vec<u32> }
impl Model for L35 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<u32> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.bytes).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let bytes: Vec<u32> = { gen_upto::<Vec<u32>>(r, "u32") }; L35 { bytes } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.bytes.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L36 { #[speedy(length_type = u32)] pub length: String }
impl Model for L36 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.length).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: String = { gen_upto::<String>(r, "u32") }; L36 { length } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L37 { #[speedy(length_type = u32)] pub tag: BTreeMap<u8, u16> }
impl Model for L37 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<u8, u16> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.tag).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let tag: BTreeMap<u8, u16> = { gen_upto::<BTreeMap<u8, u16>>(r, "u32") }; L37 { tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L38 { #[speedy(length_type = u32)] pub slice: BTreeSet<u16> }
impl Model for L38 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeSet<u16> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.slice).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let slice: BTreeSet<u16> = { gen_upto::<BTreeSet<u16>>(r, "u32") }; L38 { slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L39<'a> { #[speedy(length_type = u32)] pub a: Cow<'a, [u32]> }
impl Model for L39<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, [u32]> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.a).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let a: Cow<'static, [u32]> = { gen_upto::<Cow<'static, [u32]>>(r, "u32") }; L39 { a } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.a.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L40(#[speedy(length_type = u32)] pub Option<Vec<u8>>);
impl Model for L40 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<Vec<u8>> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<Vec<u8>> = { gen_upto::<Option<Vec<u8>>>(r, "u32") }; L40(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L41(#[speedy(length_type = u32)] pub Vec<Option<u16>>);
impl Model for L41 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<Option<u16>> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<Option<u16>> = { gen_upto::<Vec<Option<u16>>>(r, "u32") }; L41(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L42 { #[speedy(length_type = u64)] pub value: String }
impl Model for L42 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.value).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let value: String = { gen_upto::<String>(r, "u64") }; L42 { value } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.value.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L43(#[speedy(length_type = u64)] pub BTreeSet<u16>);
impl Model for L43 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeSet<u16> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: BTreeSet<u16> = { gen_upto::<BTreeSet<u16>>(r, "u64") }; L43(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L44 { #[speedy(length_type = u64)] pub tag: Option<Vec<u8>> }
impl Model for L44 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<Vec<u8>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.tag).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let tag: Option<Vec<u8>> = { gen_upto::<Option<Vec<u8>>>(r, "u64") }; L44 { tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L45<'a>(#[speedy(length_type = u64)] pub &'a [u8]);
impl Model for L45<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static [u8] as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static [u8] = { gen_upto::<&'static [u8]>(r, "u64") }; L45(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L46 { #[speedy(length_type = u64_varint)] pub count: Vec<u32> }
impl Model for L46 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<u32> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: Vec<u32> = { gen_upto::<Vec<u32>>(r, "varint") }; L46 { count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L47(#[speedy(length_type = u64_varint)] pub String);
impl Model for L47 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: String = { gen_upto::<String>(r, "varint") }; L47(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L48 { #[speedy(length_type = u64_varint)] pub key: BTreeMap<u8, u16> }
impl Model for L48 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<u8, u16> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.key).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let key: BTreeMap<u8, u16> = { gen_upto::<BTreeMap<u8, u16>>(r, "varint") }; L48 { key } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.key.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L49 { #[speedy(length_type = u64_varint)] pub len: BTreeSet<u16> }
impl Model for L49 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeSet<u16> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.len).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: BTreeSet<u16> = { gen_upto::<BTreeSet<u16>>(r, "varint") }; L49 { len } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L50(#[speedy(length_type = u64_varint)] pub Option<Vec<u8>>);
impl Model for L50 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<Vec<u8>> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<Vec<u8>> = { gen_upto::<Option<Vec<u8>>>(r, "varint") }; L50(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L51<'a>(#[speedy(length_type = u64_varint)] pub &'a str);
impl Model for L51<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static str = { gen_upto::<&'static str>(r, "varint") }; L51(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u7)] pub enum E52 { V0 }
impl Model for E52 {
    fn schema() -> String { enum_schema("u7", false, &[(0, vec![])]) }
    fn val(&self, o: &mut String) { match self { E52::V0 => { o.push_str("[1,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => {  E52::V0 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E52::V0 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u7)] pub enum E54 { V0(u32, BTreeSet<u32>), #[speedy(tag = 60)] V1, V2(Option<Option<Ipv4Addr>>, u64), #[speedy(tag = 72)] V3 { x: Vec<[NonZeroU32; 2]> }, #[speedy(tag = 1)] V4 { length: f64 }, #[speedy(tag = 125)] V5(char) }
impl Model for E54 {
    fn schema() -> String { enum_schema("u7", false, &[(0, vec![fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<BTreeSet<u32> as Model>::schema(), false, false, &[])]), (60, vec![]), (61, vec![fieldx(<Option<Option<Ipv4Addr>> as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]), (72, vec![fieldx(<Vec<[NonZeroU32; 2]> as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<f64 as Model>::schema(), false, false, &[])]), (125, vec![fieldx(<char as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E54::V0(f_0, f_1) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E54::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E54::V2(f_0, f_1) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E54::V3 { x: f_0 } => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } E54::V4 { length: f_0 } => { o.push_str("[5,["); f_0.val(o); o.push_str("]]"); } E54::V5(f_0) => { o.push_str("[6,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let t0: u32 = <u32 as Model>::gen(r); let t1: BTreeSet<u32> = <BTreeSet<u32> as Model>::gen(r); E54::V0(t0, t1) } 1 => {  E54::V1 } 2 => { let t0: Option<Option<Ipv4Addr>> = <Option<Option<Ipv4Addr>> as Model>::gen(r); let t1: u64 = <u64 as Model>::gen(r); E54::V2(t0, t1) } 3 => { let x: Vec<[NonZeroU32; 2]> = <Vec<[NonZeroU32; 2]> as Model>::gen(r); E54::V3 { x } } 4 => { let length: f64 = <f64 as Model>::gen(r); E54::V4 { length } } 5 => { let t0: char = <char as Model>::gen(r); E54::V5(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E54::V0(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E54::V1 => {  } E54::V2(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E54::V3 { x: f_0 } => { f_0.borrows(f); } E54::V4 { length: f_0 } => { f_0.borrows(f); } E54::V5(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E55 { #[speedy(tag = 228)] V0 }
impl Model for E55 {
    fn schema() -> String { enum_schema("u8", false, &[(228, vec![])]) }
    fn val(&self, o: &mut String) { match self { E55::V0 => { o.push_str("[1,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => {  E55::V0 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E55::V0 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E56 { V0, V1 }
impl Model for E56 {
    fn schema() -> String { enum_schema("u8", false, &[(0, vec![]), (1, vec![])]) }
    fn val(&self, o: &mut String) { match self { E56::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E56::V1 => { o.push_str("[2,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => {  E56::V0 } 1 => {  E56::V1 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E56::V0 => {  } E56::V1 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16)] pub enum E57 { V0 { out: Ipv6Addr }, V1 { size: String } }
impl Model for E57 {
    fn schema() -> String { enum_schema("u16", false, &[(0, vec![fieldx(<Ipv6Addr as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<String as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E57::V0 { out: f_0 } => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E57::V1 { size: f_0 } => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => { let out: Ipv6Addr = <Ipv6Addr as Model>::gen(r); E57::V0 { out } } 1 => { let size: String = <String as Model>::gen(r); E57::V1 { size } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E57::V0 { out: f_0 } => { f_0.borrows(f); } E57::V1 { size: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u16)] pub enum E58 { V0, V1 = 58856, V2 = 0xa0, V3 }
impl Model for E58 {
    fn schema() -> String { enum_schema("u16", false, &[(0, vec![]), (58856, vec![]), (160, vec![]), (161, vec![])]) }
    fn val(&self, o: &mut String) { match self { E58::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E58::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E58::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E58::V3 => { o.push_str("[4,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => {  E58::V0 } 1 => {  E58::V1 } 2 => {  E58::V2 } 3 => {  E58::V3 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E58::V0 => {  } E58::V1 => {  } E58::V2 => {  } E58::V3 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u32)] pub enum E59<'a> { V0(bool), #[speedy(tag = 5)] V1((Box<Uuid>, Cow<'a, str>,)) }
impl Model for E59<'static> {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(<bool as Model>::schema(), false, false, &[])]), (5, vec![fieldx(<(Box<Uuid>, Cow<'static, str>,) as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E59::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E59::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => { let t0: bool = <bool as Model>::gen(r); E59::V0(t0) } 1 => { let t0: (Box<Uuid>, Cow<'static, str>,) = <(Box<Uuid>, Cow<'static, str>,) as Model>::gen(r); E59::V1(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E59::V0(f_0) => { f_0.borrows(f); } E59::V1(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u32)] pub enum E60 { V0, V1 = 2, V2, #[speedy(tag = 864083185)] V3 = 0x42 }
impl Model for E60 {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![]), (2, vec![]), (3, vec![]), (864083185, vec![])]) }
    fn val(&self, o: &mut String) { match self { E60::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E60::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E60::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E60::V3 => { o.push_str("[4,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => {  E60::V0 } 1 => {  E60::V1 } 2 => {  E60::V2 } 3 => {  E60::V3 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E60::V0 => {  } E60::V1 => {  } E60::V2 => {  } E60::V3 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum E61 { #[speedy(tag = 18446744073709551614)] V0, #[speedy(tag = 18446744073709551615)] V1(usize, i16, Vec<E56>), #[speedy(tag = 3127757208696210148)] V2(char, Vec<(char,)>, Option<BTreeMap<String, i128>>) }
impl Model for E61 {
    fn schema() -> String { enum_schema("u64", false, &[(18446744073709551614, vec![]), (18446744073709551615, vec![fieldx(<usize as Model>::schema(), false, false, &[]), fieldx(<i16 as Model>::schema(), false, false, &[]), fieldx(<Vec<E56> as Model>::schema(), false, false, &[])]), (3127757208696210148, vec![fieldx(<char as Model>::schema(), false, false, &[]), fieldx(<Vec<(char,)> as Model>::schema(), false, false, &[]), fieldx(<Option<BTreeMap<String, i128>> as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E61::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E61::V1(f_0, f_1, f_2) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E61::V2(f_0, f_1, f_2) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => {  E61::V0 } 1 => { let t0: usize = <usize as Model>::gen(r); let t1: i16 = <i16 as Model>::gen(r); let t2: Vec<E56> = <Vec<E56> as Model>::gen(r); E61::V1(t0, t1, t2) } 2 => { let t0: char = <char as Model>::gen(r); let t1: Vec<(char,)> = <Vec<(char,)> as Model>::gen(r); let t2: Option<BTreeMap<String, i128>> = <Option<BTreeMap<String, i128>> as Model>::gen(r); E61::V2(t0, t1, t2) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E61::V0 => {  } E61::V1(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E61::V2(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum E62 { V0, V1, V2, V3 }
impl Model for E62 {
    fn schema() -> String { enum_schema("u64", false, &[(0, vec![]), (1, vec![]), (2, vec![]), (3, vec![])]) }
    fn val(&self, o: &mut String) { match self { E62::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E62::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E62::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E62::V3 => { o.push_str("[4,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => {  E62::V0 } 1 => {  E62::V1 } 2 => {  E62::V2 } 3 => {  E62::V3 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E62::V0 => {  } E62::V1 => {  } E62::V2 => {  } E62::V3 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E63<'a> { #[speedy(tag = 8)] V0, #[speedy(tag = 4324046014375801574)] V1(Option<String>, Vec<Cow<'a, str>>, (Cow<'a, BTreeMap<u8, u32>>, u8,)), V2 { rest: E54, len: E58, kind: bool }, V3(BTreeSet<i16>, u8, Ipv4Addr) }
impl Model for E63<'static> {
    fn schema() -> String { enum_schema("varint", false, &[(8, vec![]), (4324046014375801574, vec![fieldx(<Option<String> as Model>::schema(), false, false, &[]), fieldx(<Vec<Cow<'static, str>> as Model>::schema(), false, false, &[]), fieldx(<(Cow<'static, BTreeMap<u8, u32>>, u8,) as Model>::schema(), false, false, &[])]), (4324046014375801575, vec![fieldx(<E54 as Model>::schema(), false, false, &[]), fieldx(<E58 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[])]), (4324046014375801576, vec![fieldx(<BTreeSet<i16> as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<Ipv4Addr as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E63::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E63::V1(f_0, f_1, f_2) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E63::V2 { rest: f_0, len: f_1, kind: f_2 } => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E63::V3(f_0, f_1, f_2) => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => {  E63::V0 } 1 => { let t0: Option<String> = <Option<String> as Model>::gen(r); let t1: Vec<Cow<'static, str>> = <Vec<Cow<'static, str>> as Model>::gen(r); let t2: (Cow<'static, BTreeMap<u8, u32>>, u8,) = <(Cow<'static, BTreeMap<u8, u32>>, u8,) as Model>::gen(r); E63::V1(t0, t1, t2) } 2 => { let rest: E54 = <E54 as Model>::gen(r); let len: E58 = <E58 as Model>::gen(r); let kind: bool = <bool as Model>::gen(r); E63::V2 { rest, len, kind } } 3 => { let t0: BTreeSet<i16> = <BTreeSet<i16> as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); let t2: Ipv4Addr = <Ipv4Addr as Model>::gen(r); E63::V3(t0, t1, t2) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E63::V0 => {  } E63::V1(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E63::V2 { rest: f_0, len: f_1, kind: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E63::V3(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u64_varint)] pub enum E64 { #[speedy(tag = 18446744073709551614)] V0, V1 = 0x4000 }
impl Model for E64 {
    fn schema() -> String { enum_schema("varint", false, &[(18446744073709551614, vec![]), (16384, vec![])]) }
    fn val(&self, o: &mut String) { match self { E64::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E64::V1 => { o.push_str("[2,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => {  E64::V0 } 1 => {  E64::V1 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E64::V0 => {  } E64::V1 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u64)] pub enum E65 { V0 = 1405789270657645553, V1 = 1 }
impl Model for E65 {
    fn schema() -> String { enum_schema("u64", false, &[(1405789270657645553, vec![]), (1, vec![])]) }
    fn val(&self, o: &mut String) { match self { E65::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E65::V1 => { o.push_str("[2,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => {  E65::V0 } 1 => {  E65::V1 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E65::V0 => {  } E65::V1 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub enum E66<'a> { #[speedy(tag = 0)] V0(u8, #[speedy(length = ..)] Vec<u8>), #[speedy(tag = 25)] V1(u8, #[speedy(length_type = u16)] Option<Vec<u8>>), #[speedy(tag = 3)] V2(#[speedy(length = ..)] Vec<i64>), #[speedy(tag = 211)] V3(BTreeMap<u8, S7>, #[speedy(constant_prefix = 7u8)] #[speedy(length_type = u64)] Cow<'a, BTreeMap<u16, u8>>, #[speedy(length_type = u64)] Option<Cow<'a, BTreeSet<u32>>>), V4 { #[speedy(constant_prefix = false, length_type = u16)] len: Vec<String>, #[speedy(length_type = u7)] count: Cow<'a, BTreeMap<u16, bool>>, #[speedy(default_on_eof)] x: u8 }, #[speedy(tag = 1)] V5 }
impl Model for E66<'static> {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]), (25, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Option<Vec<u8>> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]), (3, vec![fieldx(with_lt(<Vec<i64> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]), (211, vec![fieldx(<BTreeMap<u8, S7> as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeMap<u16, u8>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[7]), fieldx(with_lt(<Option<Cow<'static, BTreeSet<u32>>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]), (212, vec![fieldx(with_lt(<Vec<String> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[0]), fieldx(with_lt(<Cow<'static, BTreeMap<u16, bool>> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), true, false, &[])]), (1, vec![])]) }
    fn val(&self, o: &mut String) { match self { E66::V0(f_0, f_1) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E66::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E66::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E66::V3(f_0, f_1, f_2) => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E66::V4 { len: f_0, count: f_1, x: f_2 } => { o.push_str("[5,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E66::V5 => { o.push_str("[6,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let t0: u8 = (r.below(24) as u8); let t1: Vec<u8> = <Vec<u8> as Model>::gen(r); E66::V0(t0, t1) } 1 => { let t0: u8 = (r.below(24) as u8); let t1: Option<Vec<u8>> = { gen_upto::<Option<Vec<u8>>>(r, "u16") }; E66::V1(t0, t1) } 2 => { let t0: Vec<i64> = <Vec<i64> as Model>::gen(r); E66::V2(t0) } 3 => { let t0: BTreeMap<u8, S7> = <BTreeMap<u8, S7> as Model>::gen(r); let t1: Cow<'static, BTreeMap<u16, u8>> = { gen_upto::<Cow<'static, BTreeMap<u16, u8>>>(r, "u64") }; let t2: Option<Cow<'static, BTreeSet<u32>>> = { gen_upto::<Option<Cow<'static, BTreeSet<u32>>>>(r, "u64") }; E66::V3(t0, t1, t2) } 4 => { let len: Vec<String> = { gen_upto::<Vec<String>>(r, "u16") }; let count: Cow<'static, BTreeMap<u16, bool>> = { gen_upto::<Cow<'static, BTreeMap<u16, bool>>>(r, "u7") }; let x: u8 = (r.below(24) as u8); E66::V4 { len, count, x } } 5 => {  E66::V5 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E66::V0(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E66::V1(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E66::V2(f_0) => { f_0.borrows(f); } E66::V3(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E66::V4 { len: f_0, count: f_1, x: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E66::V5 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S67(#[speedy(constant_prefix = "")] pub String, pub S5);
impl Model for S67 {
    fn schema() -> String { struct_schema(&[fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<S5 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: String = <String as Model>::gen(r); let t1: S5 = <S5 as Model>::gen(r); S67(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S68<'a> { pub y: i8, pub name: bool, #[speedy(length_type = u7)] pub length: Vec<String>, #[speedy(constant_prefix = 7u8)] pub result: Option<Cow<'a, [i16]>>, #[speedy(constant_prefix = b"\0\xff\0")] #[speedy(default_on_eof)] pub b: [i8; 3] }
impl Model for S68<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<String> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(<Option<Cow<'static, [i16]>> as Model>::schema(), false, false, &[7]), fieldx(<[i8; 3] as Model>::schema(), true, false, &[0, 255, 0])]) }
    fn val(&self, o: &mut String) { o.push('['); self.y.val(o); o.push(','); self.name.val(o); o.push(','); self.length.val(o); o.push(','); self.result.val(o); o.push(','); self.b.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: i8 = <i8 as Model>::gen(r); let name: bool = <bool as Model>::gen(r); let length: Vec<String> = { gen_upto::<Vec<String>>(r, "u7") }; let result: Option<Cow<'static, [i16]>> = <Option<Cow<'static, [i16]>> as Model>::gen(r); let b: [i8; 3] = <[i8; 3] as Model>::gen(r); S68 { y, name, length, result, b } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.y.borrows(f); self.name.borrows(f); self.length.borrows(f); self.result.borrows(f); self.b.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S69 { #[speedy(skip)] pub name: ((u8, i16, bool,), Vec<Ipv6Addr>,), #[speedy(constant_prefix = b"RU")] pub a: BTreeSet<u16>, pub flags: [Option<u32>; 0], #[speedy(constant_prefix = -128i8)] pub x: Vec<Vec<bool>> }
impl Model for S69 {
    fn schema() -> String { struct_schema(&[fieldx(<((u8, i16, bool,), Vec<Ipv6Addr>,) as Model>::schema(), false, true, &[]), fieldx(<BTreeSet<u16> as Model>::schema(), false, false, &[82, 85]), fieldx(<[Option<u32>; 0] as Model>::schema(), false, false, &[]), fieldx(<Vec<Vec<bool>> as Model>::schema(), false, false, &[128])]) }
    fn val(&self, o: &mut String) { o.push('['); self.name.val(o); o.push(','); self.a.val(o); o.push(','); self.flags.val(o); o.push(','); self.x.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: ((u8, i16, bool,), Vec<Ipv6Addr>,) = <((u8, i16, bool,), Vec<Ipv6Addr>,) as Model>::gen(r); let a: BTreeSet<u16> = <BTreeSet<u16> as Model>::gen(r); let flags: [Option<u32>; 0] = <[Option<u32>; 0] as Model>::gen(r); let x: Vec<Vec<bool>> = <Vec<Vec<bool>> as Model>::gen(r); S69 { name, a, flags, x } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); self.a.borrows(f); self.flags.borrows(f); self.x.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S70 { #[speedy(constant_prefix = '\u{20ac}')] pub len: BTreeMap<u64, bool>, #[speedy(skip)] pub result: BTreeSet<String> }
impl Model for S70 {
    fn schema() -> String { struct_schema(&[fieldx(<BTreeMap<u64, bool> as Model>::schema(), false, false, &[226, 130, 172]), fieldx(<BTreeSet<String> as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.len.val(o); o.push(','); self.result.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: BTreeMap<u64, bool> = <BTreeMap<u64, bool> as Model>::gen(r); let result: BTreeSet<String> = <BTreeSet<String> as Model>::gen(r); S70 { len, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); self.result.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S71<'a>(#[speedy(length_type = u64_varint)] pub Cow<'a, BTreeMap<u16, u16>>, #[speedy(length_type = u64_varint)] pub Vec<Ipv6Addr>, pub u8);
impl Model for S71<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, BTreeMap<u16, u16>> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<Vec<Ipv6Addr> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Cow<'static, BTreeMap<u16, u16>> = { gen_upto::<Cow<'static, BTreeMap<u16, u16>>>(r, "varint") }; let t1: Vec<Ipv6Addr> = { gen_upto::<Vec<Ipv6Addr>>(r, "varint") }; let t2: u8 = (r.below(24) as u8); S71(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E72 { #[speedy(tag = 5)] V0 { #[speedy(constant_prefix = '\u{20ac}')] #[speedy(default_on_eof)] error: f32 }, #[speedy(tag = 210)] V1(#[speedy(constant_prefix = true)] f64), V2, V3(#[speedy(constant_prefix = "")] String), #[speedy(tag = 195)] V4(#[speedy(length_type = u8, constant_prefix = b"\0\xff\0")] String, Option<u8>), V5 }
impl Model for E72 {
    fn schema() -> String { enum_schema("u8", false, &[(5, vec![fieldx(<f32 as Model>::schema(), true, false, &[226, 130, 172])]), (210, vec![fieldx(<f64 as Model>::schema(), false, false, &[1])]), (211, vec![]), (212, vec![fieldx(<String as Model>::schema(), false, false, &[])]), (195, vec![fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[0, 255, 0]), fieldx(<Option<u8> as Model>::schema(), false, false, &[])]), (196, vec![])]) }
    fn val(&self, o: &mut String) { match self { E72::V0 { error: f_0 } => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E72::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E72::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E72::V3(f_0) => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } E72::V4(f_0, f_1) => { o.push_str("[5,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E72::V5 => { o.push_str("[6,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let error: f32 = <f32 as Model>::gen(r); E72::V0 { error } } 1 => { let t0: f64 = <f64 as Model>::gen(r); E72::V1(t0) } 2 => {  E72::V2 } 3 => { let t0: String = <String as Model>::gen(r); E72::V3(t0) } 4 => { let t0: String = { gen_upto::<String>(r, "u8") }; let t1: Option<u8> = <Option<u8> as Model>::gen(r); E72::V4(t0, t1) } 5 => {  E72::V5 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E72::V0 { error: f_0 } => { f_0.borrows(f); } E72::V1(f_0) => { f_0.borrows(f); } E72::V2 => {  } E72::V3(f_0) => { f_0.borrows(f); } E72::V4(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E72::V5 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K73 { pub key: u64, pub rest: u64, #[speedy(skip)] pub tag: u64 }
impl Model for K73 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.key).val(o); o.push(','); (self.rest).val(o); o.push(','); (self.tag).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let key: u64 = <u64 as Model>::gen(r); let rest: u64 = <u64 as Model>::gen(r); let tag: u64 = <u64 as Model>::gen(r); K73 { key, rest, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.key.borrows(f); self.rest.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K74 { pub t0: u32, #[speedy(constant_prefix = b'Z')] pub result: u32 }
impl Model for K74 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[90])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t0).val(o); o.push(','); (self.result).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = <u32 as Model>::gen(r); let result: u32 = <u32 as Model>::gen(r); K74 { t0, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t0.borrows(f); self.result.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K75 { #[speedy(skip)] pub value: u8, pub y: u8 }
impl Model for K75 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, true, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.value).val(o); o.push(','); (self.y).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let value: u8 = <u8 as Model>::gen(r); let y: u8 = <u8 as Model>::gen(r); K75 { value, y } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.value.borrows(f); self.y.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K76 { pub data: u32, #[speedy(constant_prefix = false)] pub t1: u32, pub result: u32 }
impl Model for K76 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[0]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.data).val(o); o.push(','); (self.t1).val(o); o.push(','); (self.result).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let data: u32 = <u32 as Model>::gen(r); let t1: u32 = <u32 as Model>::gen(r); let result: u32 = <u32 as Model>::gen(r); K76 { data, t1, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.data.borrows(f); self.t1.borrows(f); self.result.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K77 { pub b: u32, pub id: u32, #[speedy(default_on_eof)] pub slice: u32 }
impl Model for K77 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.b).val(o); o.push(','); (self.id).val(o); o.push(','); (self.slice).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let b: u32 = <u32 as Model>::gen(r); let id: u32 = <u32 as Model>::gen(r); let slice: u32 = <u32 as Model>::gen(r); K77 { b, id, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.b.borrows(f); self.id.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K78 { pub flags: u16, #[speedy(skip)] pub name: u16 }
impl Model for K78 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.flags).val(o); o.push(','); (self.name).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let flags: u16 = <u16 as Model>::gen(r); let name: u16 = <u16 as Model>::gen(r); K78 { flags, name } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.flags.borrows(f); self.name.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K79 { #[speedy(constant_prefix = b"\0\xff\0")] pub error: u8, pub reader: u8 }
impl Model for K79 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[0, 255, 0]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.error).val(o); o.push(','); (self.reader).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let error: u8 = <u8 as Model>::gen(r); let reader: u8 = <u8 as Model>::gen(r); K79 { error, reader } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.error.borrows(f); self.reader.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K80 { #[speedy(varint)] pub t0: u64, pub slice: u64 }
impl Model for K80 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t0).val(o); o.push(','); (self.slice).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let slice: u64 = <u64 as Model>::gen(r); K80 { t0, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t0.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K81 { pub error: u16, #[speedy(default_on_eof)] pub length: u16 }
impl Model for K81 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.error).val(o); o.push(','); (self.length).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let error: u16 = <u16 as Model>::gen(r); let length: u16 = <u16 as Model>::gen(r); K81 { error, length } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.error.borrows(f); self.length.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(packed)] pub struct K82 { pub result: u64, #[speedy(constant_prefix = -128i8)] pub bytes: u64 }
impl Model for K82 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[128])]) }
    fn val(&self, o: &mut String) { o.push('['); ({self.result}).val(o); o.push(','); ({self.bytes}).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: u64 = <u64 as Model>::gen(r); let bytes: u64 = <u64 as Model>::gen(r); K82 { result, bytes } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(packed)] pub struct K83 { pub y: u32, #[speedy(default_on_eof)] pub id: u32 }
impl Model for K83 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); ({self.y}).val(o); o.push(','); ({self.id}).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: u32 = <u32 as Model>::gen(r); let id: u32 = <u32 as Model>::gen(r); K83 { y, id } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct K84 { #[speedy(constant_prefix = 7u8)] pub rest: u16 }
impl Model for K84 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[7])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.rest).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let rest: u16 = <u16 as Model>::gen(r); K84 { rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.rest.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct K85 { #[speedy(varint)] pub key: u64 }
impl Model for K85 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.key).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let key: u64 = <u64 as Model>::gen(r); K85 { key } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.key.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct K86 { #[speedy(default_on_eof)] pub length: u16 }
impl Model for K86 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.length).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: u16 = <u16 as Model>::gen(r); K86 { length } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K87 { pub y: u64, #[speedy(varint)] pub slice: u64 }
impl Model for K87 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.y).val(o); o.push(','); (self.slice).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: u64 = <u64 as Model>::gen(r); let slice: u64 = <u64 as Model>::gen(r); K87 { y, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.y.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K88 { pub slice: u64, pub b: u64, #[speedy(default_on_eof)] pub tag: u64 }
impl Model for K88 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.slice).val(o); o.push(','); (self.b).val(o); o.push(','); (self.tag).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let slice: u64 = <u64 as Model>::gen(r); let b: u64 = <u64 as Model>::gen(r); let tag: u64 = <u64 as Model>::gen(r); K88 { slice, b, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.slice.borrows(f); self.b.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K89 { pub b: u8, #[speedy(skip)] pub size: u8 }
impl Model for K89 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.b).val(o); o.push(','); (self.size).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let b: u8 = <u8 as Model>::gen(r); let size: u8 = <u8 as Model>::gen(r); K89 { b, size } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.b.borrows(f); self.size.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K90 { pub t1: u8, #[speedy(constant_prefix = -3i8)] pub name: u8 }
impl Model for K90 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[253])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t1).val(o); o.push(','); (self.name).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: u8 = <u8 as Model>::gen(r); let name: u8 = <u8 as Model>::gen(r); K90 { t1, name } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); self.name.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K91 { pub bytes: u64, pub size: u64, #[speedy(varint)] pub result: u64 }
impl Model for K91 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.bytes).val(o); o.push(','); (self.size).val(o); o.push(','); (self.result).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let bytes: u64 = <u64 as Model>::gen(r); let size: u64 = <u64 as Model>::gen(r); let result: u64 = <u64 as Model>::gen(r); K91 { bytes, size, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.bytes.borrows(f); self.size.borrows(f); self.result.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K92 { pub x: u16, #[speedy(skip)] pub kind: u16 }
impl Model for K92 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.x).val(o); o.push(','); (self.kind).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let x: u16 = <u16 as Model>::gen(r); let kind: u16 = <u16 as Model>::gen(r); K92 { x, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.x.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K93 { pub b: u16, #[speedy(constant_prefix = b"RU")] pub error: u16 }
impl Model for K93 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[82, 85])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.b).val(o); o.push(','); (self.error).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let b: u16 = <u16 as Model>::gen(r); let error: u16 = <u16 as Model>::gen(r); K93 { b, error } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.b.borrows(f); self.error.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K94 { pub t0: u64, #[speedy(default_on_eof)] pub kind: u64 }
impl Model for K94 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t0).val(o); o.push(','); (self.kind).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let kind: u64 = <u64 as Model>::gen(r); K94 { t0, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t0.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P95 { pub x: u16, #[speedy(constant_prefix = b"RU")] pub value: String }
impl Model for P95 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[82, 85])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.x).val(o); o.push(','); (self.value).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let x: u16 = <u16 as Model>::gen(r); let value: String = <String as Model>::gen(r); P95 { x, value } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.x.borrows(f); self.value.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P96 { pub value: u16, #[speedy(constant_prefix = "ab\u{e9}")] pub error: String }
impl Model for P96 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[97, 98, 195, 169])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.value).val(o); o.push(','); (self.error).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let value: u16 = <u16 as Model>::gen(r); let error: String = <String as Model>::gen(r); P96 { value, error } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.value.borrows(f); self.error.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P97 { #[speedy(constant_prefix = 7u8)] pub rest: u8, pub t0: u16 }
impl Model for P97 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[7]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.rest).val(o); o.push(','); (self.t0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let rest: u8 = <u8 as Model>::gen(r); let t0: u16 = <u16 as Model>::gen(r); P97 { rest, t0 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.rest.borrows(f); self.t0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P98 { pub length: u16, #[speedy(constant_prefix = 'x')] pub tag: u16 }
impl Model for P98 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[120])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.length).val(o); o.push(','); (self.tag).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: u16 = <u16 as Model>::gen(r); let tag: u16 = <u16 as Model>::gen(r); P98 { length, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P99 { pub error: u16, #[speedy(constant_prefix = '\u{20ac}')] pub t1: u8 }
impl Model for P99 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[226, 130, 172])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.error).val(o); o.push(','); (self.t1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let error: u16 = <u16 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); P99 { error, t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.error.borrows(f); self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P100 { pub length: u16, #[speedy(constant_prefix = true)] pub id: String }
impl Model for P100 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[1])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.length).val(o); o.push(','); (self.id).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: u16 = <u16 as Model>::gen(r); let id: String = <String as Model>::gen(r); P100 { length, id } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); self.id.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P101 { pub x: u16, #[speedy(constant_prefix = b'Z')] pub out: String }
impl Model for P101 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[90])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.x).val(o); o.push(','); (self.out).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let x: u16 = <u16 as Model>::gen(r); let out: String = <String as Model>::gen(r); P101 { x, out } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.x.borrows(f); self.out.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P102 { pub t0: u16, #[speedy(constant_prefix = -3i8)] pub b: bool }
impl Model for P102 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[253])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t0).val(o); o.push(','); (self.b).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let b: bool = <bool as Model>::gen(r); P102 { t0, b } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t0.borrows(f); self.b.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P103 { pub data: u16, #[speedy(constant_prefix = b"\0\xff\0")] pub count: u16 }
impl Model for P103 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[0, 255, 0])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.data).val(o); o.push(','); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let data: u16 = <u16 as Model>::gen(r); let count: u16 = <u16 as Model>::gen(r); P103 { data, count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.data.borrows(f); self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P104 { pub error: u16, #[speedy(constant_prefix = "")] pub count: u8 }
impl Model for P104 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.error).val(o); o.push(','); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let error: u16 = <u16 as Model>::gen(r); let count: u8 = <u8 as Model>::gen(r); P104 { error, count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.error.borrows(f); self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P105 { pub data: u16, #[speedy(constant_prefix = false)] pub a: u16 }
impl Model for P105 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[0])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.data).val(o); o.push(','); (self.a).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let data: u16 = <u16 as Model>::gen(r); let a: u16 = <u16 as Model>::gen(r); P105 { data, a } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.data.borrows(f); self.a.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P106 { pub kind: u16, #[speedy(constant_prefix = -128i8)] pub slice: u16 }
impl Model for P106 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[128])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.kind).val(o); o.push(','); (self.slice).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let kind: u16 = <u16 as Model>::gen(r); let slice: u16 = <u16 as Model>::gen(r); P106 { kind, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.kind.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D107(pub u16, #[speedy(default_on_eof, constant_prefix = b"\0\xff\0")] pub u8);
impl Model for D107 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), true, false, &[0, 255, 0])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); D107(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D108 { pub count: u16, #[speedy(default_on_eof, varint)] pub a: u64 }
impl Model for D108 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.count).val(o); o.push(','); (self.a).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: u16 = <u16 as Model>::gen(r); let a: u64 = <u64 as Model>::gen(r); D108 { count, a } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); self.a.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D109(pub u16, #[speedy(default_on_eof)] pub bool);
impl Model for D109 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: bool = <bool as Model>::gen(r); D109(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D110(pub u16, #[speedy(default_on_eof)] pub char);
impl Model for D110 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<char as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: char = <char as Model>::gen(r); D110(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D111(pub u8, #[speedy(default_on_eof)] pub String);
impl Model for D111 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: String = <String as Model>::gen(r); D111(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D112 { pub name: u8, #[speedy(default_on_eof)] pub reader: Vec<u8> }
impl Model for D112 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<Vec<u8> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.name).val(o); o.push(','); (self.reader).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: u8 = <u8 as Model>::gen(r); let reader: Vec<u8> = <Vec<u8> as Model>::gen(r); D112 { name, reader } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); self.reader.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D113 { pub len: u16, #[speedy(default_on_eof, length_type = u64, constant_prefix = b"\0\xff\0")] pub length: Vec<u32> }
impl Model for D113 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<u32> as Model>::schema(), "{\"l\":\"u64\"}"), true, false, &[0, 255, 0])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.len).val(o); o.push(','); (self.length).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: u16 = <u16 as Model>::gen(r); let length: Vec<u32> = { gen_upto::<Vec<u32>>(r, "u64") }; D113 { len, length } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); self.length.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D114 { pub out: u16, #[speedy(default_on_eof, length_type = u7)] pub count: Vec<String> }
impl Model for D114 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<String> as Model>::schema(), "{\"l\":\"u7\"}"), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.out).val(o); o.push(','); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: u16 = <u16 as Model>::gen(r); let count: Vec<String> = { gen_upto::<Vec<String>>(r, "u7") }; D114 { out, count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.out.borrows(f); self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D115 { pub rest: u16, #[speedy(default_on_eof)] pub len: Option<u16> }
impl Model for D115 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<Option<u16> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.rest).val(o); o.push(','); (self.len).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let rest: u16 = <u16 as Model>::gen(r); let len: Option<u16> = <Option<u16> as Model>::gen(r); D115 { rest, len } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.rest.borrows(f); self.len.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D116 { pub name: u8, #[speedy(default_on_eof)] pub rest: Option<Vec<u16>> }
impl Model for D116 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<Option<Vec<u16>> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.name).val(o); o.push(','); (self.rest).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: u8 = <u8 as Model>::gen(r); let rest: Option<Vec<u16>> = <Option<Vec<u16>> as Model>::gen(r); D116 { name, rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); self.rest.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D117 { pub error: u16, #[speedy(default_on_eof)] pub tag: Option<String> }
impl Model for D117 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<Option<String> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.error).val(o); o.push(','); (self.tag).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let error: u16 = <u16 as Model>::gen(r); let tag: Option<String> = <Option<String> as Model>::gen(r); D117 { error, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.error.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D118 { pub reader: u8, #[speedy(default_on_eof)] pub len: [u16; 3] }
impl Model for D118 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<[u16; 3] as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.reader).val(o); o.push(','); (self.len).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let reader: u8 = <u8 as Model>::gen(r); let len: [u16; 3] = <[u16; 3] as Model>::gen(r); D118 { reader, len } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.reader.borrows(f); self.len.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D119(pub u16, #[speedy(default_on_eof)] #[speedy(constant_prefix = b'Z')] pub BTreeMap<u8, u16>);
impl Model for D119 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<BTreeMap<u8, u16> as Model>::schema(), true, false, &[90])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: BTreeMap<u8, u16> = <BTreeMap<u8, u16> as Model>::gen(r); D119(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D120(pub u8, #[speedy(default_on_eof, length_type = u32, constant_prefix = true)] pub BTreeSet<u16>);
impl Model for D120 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<BTreeSet<u16> as Model>::schema(), "{\"l\":\"u32\"}"), true, false, &[1])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: BTreeSet<u16> = { gen_upto::<BTreeSet<u16>>(r, "u32") }; D120(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D121<'a> { pub length: u16, #[speedy(default_on_eof, constant_prefix = -3i8)] pub size: Cow<'a, str> }
impl Model for D121<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, str> as Model>::schema(), true, false, &[253])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.length).val(o); o.push(','); (self.size).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: u16 = <u16 as Model>::gen(r); let size: Cow<'static, str> = <Cow<'static, str> as Model>::gen(r); D121 { length, size } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); self.size.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D122<'a>(pub u16, #[speedy(default_on_eof)] pub Cow<'a, [u16]>);
impl Model for D122<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, [u16]> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: Cow<'static, [u16]> = <Cow<'static, [u16]> as Model>::gen(r); D122(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D123<'a>(pub u8, #[speedy(default_on_eof, length_type = u64)] pub Cow<'a, BTreeSet<u8>>);
impl Model for D123<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeSet<u8>> as Model>::schema(), "{\"l\":\"u64\"}"), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: Cow<'static, BTreeSet<u8>> = { gen_upto::<Cow<'static, BTreeSet<u8>>>(r, "u64") }; D123(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D124(pub u16, #[speedy(default_on_eof)] #[speedy(constant_prefix = -128i8)] pub (u8, u16,));
impl Model for D124 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<(u8, u16,) as Model>::schema(), true, false, &[128])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: (u8, u16,) = <(u8, u16,) as Model>::gen(r); D124(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D125(pub u8, #[speedy(default_on_eof, constant_prefix = true)] pub [u8; 4]);
impl Model for D125 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<[u8; 4] as Model>::schema(), true, false, &[1])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: [u8; 4] = <[u8; 4] as Model>::gen(r); D125(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S126 { #[speedy(varint)] pub a: u64, #[speedy(varint)] pub size: u64, pub value: bool, pub slice: Vec<u64> }
impl Model for S126 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[]), fieldx(<Vec<u64> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.a.val(o); o.push(','); self.size.val(o); o.push(','); self.value.val(o); o.push(','); self.slice.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let a: u64 = <u64 as Model>::gen(r); let size: u64 = <u64 as Model>::gen(r); let value: bool = <bool as Model>::gen(r); let slice: Vec<u64> = <Vec<u64> as Model>::gen(r); S126 { a, size, value, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.a.borrows(f); self.size.borrows(f); self.value.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct X127(#[speedy(varint)] pub u64);
impl Model for X127 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); X127(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct X128(#[speedy(varint)] pub u64, pub u8);
impl Model for X128 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); X128(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct X129 { #[speedy(length_type = u64_varint)] pub data: Vec<u16> }
impl Model for X129 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<u16> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.data).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let data: Vec<u16> = { gen_upto::<Vec<u16>>(r, "varint") }; X129 { data } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.data.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct X130 { #[speedy(length_type = u64_varint)] pub count: String, #[speedy(varint)] pub name: u64 }
impl Model for X130 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.count).val(o); o.push(','); (self.name).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: String = { gen_upto::<String>(r, "varint") }; let name: u64 = <u64 as Model>::gen(r); X130 { count, name } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); self.name.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct X131(#[speedy(varint)] pub u64);
impl Model for X131 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); X131(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct X132(#[speedy(varint)] pub u64);
impl Model for X132 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); X132(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E133 { #[speedy(tag = 18446744073709551613)] V0, V1(Box<Option<u32>>, #[speedy(varint)] u64), #[speedy(tag = 13)] V2(char) }
impl Model for E133 {
    fn schema() -> String { enum_schema("varint", false, &[(18446744073709551613, vec![]), (18446744073709551614, vec![fieldx(<Box<Option<u32>> as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[])]), (13, vec![fieldx(<char as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E133::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E133::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E133::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => {  E133::V0 } 1 => { let t0: Box<Option<u32>> = <Box<Option<u32>> as Model>::gen(r); let t1: u64 = <u64 as Model>::gen(r); E133::V1(t0, t1) } 2 => { let t0: char = <char as Model>::gen(r); E133::V2(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E133::V0 => {  } E133::V1(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E133::V2(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E134 { #[speedy(tag = 9704051112079033031)] V0 }
impl Model for E134 {
    fn schema() -> String { enum_schema("varint", false, &[(9704051112079033031, vec![])]) }
    fn val(&self, o: &mut String) { match self { E134::V0 => { o.push_str("[1,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => {  E134::V0 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E134::V0 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u7)] pub enum E135 { #[speedy(tag = 28)] V0(u8) }
impl Model for E135 {
    fn schema() -> String { enum_schema("u7", true, &[(28, vec![fieldx(<u8 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E135::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let t0: u8 = (28u64 as u8); E135::V0(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E135::V0(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u7)] pub enum E136 { #[speedy(tag = 0)] V0 { a: u8, t0: BTreeMap<bool, Option<i32>>, reader: String }, V1(u8, (String, Option<u8>,)) }
impl Model for E136 {
    fn schema() -> String { enum_schema("u7", true, &[(0, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<BTreeMap<bool, Option<i32>> as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<(String, Option<u8>,) as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E136::V0 { a: f_0, t0: f_1, reader: f_2 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E136::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => { let a: u8 = (0u64 as u8); let t0: BTreeMap<bool, Option<i32>> = <BTreeMap<bool, Option<i32>> as Model>::gen(r); let reader: String = <String as Model>::gen(r); E136::V0 { a, t0, reader } } 1 => { let t0: u8 = (1u64 as u8); let t1: (String, Option<u8>,) = <(String, Option<u8>,) as Model>::gen(r); E136::V1(t0, t1) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E136::V0 { a: f_0, t0: f_1, reader: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E136::V1(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8, peek_tag)] pub enum E137 { V0 { slice: i8, value: BTreeSet<i16> }, #[speedy(tag = 16)] V1(i8, Option<[Duration; 2]>), #[speedy(tag = 254)] V2(u8), #[speedy(tag = 253)] V3 }
impl Model for E137 {
    fn schema() -> String { enum_schema("u8", true, &[(0, vec![fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<BTreeSet<i16> as Model>::schema(), false, false, &[])]), (16, vec![fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<Option<[Duration; 2]> as Model>::schema(), false, false, &[])]), (254, vec![fieldx(<u8 as Model>::schema(), false, false, &[])]), (253, vec![])]) }
    fn val(&self, o: &mut String) { match self { E137::V0 { slice: f_0, value: f_1 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E137::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E137::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E137::V3 => { o.push_str("[4,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let slice: i8 = (0u64 as i8); let value: BTreeSet<i16> = <BTreeSet<i16> as Model>::gen(r); E137::V0 { slice, value } } 1 => { let t0: i8 = (16u64 as i8); let t1: Option<[Duration; 2]> = <Option<[Duration; 2]> as Model>::gen(r); E137::V1(t0, t1) } 2 => { let t0: u8 = (254u64 as u8); E137::V2(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E137::V0 { slice: f_0, value: f_1 } => { f_0.borrows(f); f_1.borrows(f); } E137::V1(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E137::V2(f_0) => { f_0.borrows(f); } E137::V3 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u8)] pub enum E138 { #[speedy(tag = 196)] V0(u8, String, ([i16; 2], bool,)) }
impl Model for E138 {
    fn schema() -> String { enum_schema("u8", true, &[(196, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<([i16; 2], bool,) as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E138::V0(f_0, f_1, f_2) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let t0: u8 = (196u64 as u8); let t1: String = <String as Model>::gen(r); let t2: ([i16; 2], bool,) = <([i16; 2], bool,) as Model>::gen(r); E138::V0(t0, t1, t2) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E138::V0(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u16)] pub enum E139 { #[speedy(tag = 65535)] V0 { name: u16, size: u16, key: [Vec<char>; 1] }, #[speedy(tag = 0)] V1, #[speedy(tag = 62497)] V2(u16), #[speedy(tag = 2)] V3(u16, IpAddr, f64), V4(u16, (f32,), BTreeMap<char, E134>), #[speedy(tag = 8)] V5(u16) }
impl Model for E139 {
    fn schema() -> String { enum_schema("u16", true, &[(65535, vec![fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<[Vec<char>; 1] as Model>::schema(), false, false, &[])]), (0, vec![]), (62497, vec![fieldx(<u16 as Model>::schema(), false, false, &[])]), (2, vec![fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<IpAddr as Model>::schema(), false, false, &[]), fieldx(<f64 as Model>::schema(), false, false, &[])]), (3, vec![fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<(f32,) as Model>::schema(), false, false, &[]), fieldx(<BTreeMap<char, E134> as Model>::schema(), false, false, &[])]), (8, vec![fieldx(<u16 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E139::V0 { name: f_0, size: f_1, key: f_2 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E139::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E139::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E139::V3(f_0, f_1, f_2) => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E139::V4(f_0, f_1, f_2) => { o.push_str("[5,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E139::V5(f_0) => { o.push_str("[6,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(5) { 0 => { let name: u16 = (65535u64 as u16); let size: u16 = <u16 as Model>::gen(r); let key: [Vec<char>; 1] = <[Vec<char>; 1] as Model>::gen(r); E139::V0 { name, size, key } } 1 => { let t0: u16 = (62497u64 as u16); E139::V2(t0) } 2 => { let t0: u16 = (2u64 as u16); let t1: IpAddr = <IpAddr as Model>::gen(r); let t2: f64 = <f64 as Model>::gen(r); E139::V3(t0, t1, t2) } 3 => { let t0: u16 = (3u64 as u16); let t1: (f32,) = <(f32,) as Model>::gen(r); let t2: BTreeMap<char, E134> = <BTreeMap<char, E134> as Model>::gen(r); E139::V4(t0, t1, t2) } 4 => { let t0: u16 = (8u64 as u16); E139::V5(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E139::V0 { name: f_0, size: f_1, key: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E139::V1 => {  } E139::V2(f_0) => { f_0.borrows(f); } E139::V3(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E139::V4(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E139::V5(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u32)] pub enum E140 { #[speedy(tag = 131072)] V0 { rest: u32, count: S67, x: u64 }, #[speedy(tag = 4294967294)] V1(u32, i16, Vec<i16>), #[speedy(tag = 2816112707)] V2, #[speedy(tag = 3)] V3(u32), V4 { t0: u32, rest: u16, bytes: u8 }, #[speedy(tag = 712802317)] V5(u32, i8) }
impl Model for E140 {
    fn schema() -> String { enum_schema("u32", true, &[(131072, vec![fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<S67 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]), (4294967294, vec![fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<i16 as Model>::schema(), false, false, &[]), fieldx(<Vec<i16> as Model>::schema(), false, false, &[])]), (2816112707, vec![]), (3, vec![fieldx(<u32 as Model>::schema(), false, false, &[])]), (4, vec![fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]), (712802317, vec![fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E140::V0 { rest: f_0, count: f_1, x: f_2 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E140::V1(f_0, f_1, f_2) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E140::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E140::V3(f_0) => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } E140::V4 { t0: f_0, rest: f_1, bytes: f_2 } => { o.push_str("[5,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E140::V5(f_0, f_1) => { o.push_str("[6,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(5) { 0 => { let rest: u32 = (131072u64 as u32); let count: S67 = <S67 as Model>::gen(r); let x: u64 = <u64 as Model>::gen(r); E140::V0 { rest, count, x } } 1 => { let t0: u32 = (4294967294u64 as u32); let t1: i16 = <i16 as Model>::gen(r); let t2: Vec<i16> = <Vec<i16> as Model>::gen(r); E140::V1(t0, t1, t2) } 2 => { let t0: u32 = (3u64 as u32); E140::V3(t0) } 3 => { let t0: u32 = (4u64 as u32); let rest: u16 = <u16 as Model>::gen(r); let bytes: u8 = <u8 as Model>::gen(r); E140::V4 { t0, rest, bytes } } 4 => { let t0: u32 = (712802317u64 as u32); let t1: i8 = <i8 as Model>::gen(r); E140::V5(t0, t1) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E140::V0 { rest: f_0, count: f_1, x: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E140::V1(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E140::V2 => {  } E140::V3(f_0) => { f_0.borrows(f); } E140::V4 { t0: f_0, rest: f_1, bytes: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E140::V5(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64, peek_tag)] pub enum E141 { V0(u64) }
impl Model for E141 {
    fn schema() -> String { enum_schema("u64", true, &[(0, vec![fieldx(<u64 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E141::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let t0: u64 = (0u64 as u64); E141::V0(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E141::V0(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint, peek_tag)] pub enum E142 { V0(#[speedy(varint)] u64, BTreeSet<bool>), V1(#[speedy(varint)] u64, [(u16,); 0]) }
impl Model for E142 {
    fn schema() -> String { enum_schema("varint", true, &[(0, vec![fieldx(varint_schema(), false, false, &[]), fieldx(<BTreeSet<bool> as Model>::schema(), false, false, &[])]), (1, vec![fieldx(varint_schema(), false, false, &[]), fieldx(<[(u16,); 0] as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E142::V0(f_0, f_1) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E142::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => { let t0: u64 = (0u64 as u64); let t1: BTreeSet<bool> = <BTreeSet<bool> as Model>::gen(r); E142::V0(t0, t1) } 1 => { let t0: u64 = (1u64 as u64); let t1: [(u16,); 0] = <[(u16,); 0] as Model>::gen(r); E142::V1(t0, t1) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E142::V0(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E142::V1(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint, peek_tag)] pub enum E143 { V0 { #[speedy(varint)] error: u64, b: BTreeMap<u16, String>, name: i16 }, #[speedy(tag = 67108864)] V1 { #[speedy(varint)] r#type: u64 }, V2(#[speedy(varint)] u64, [BTreeMap<u32, u8>; 1], u32) }
impl Model for E143 {
    fn schema() -> String { enum_schema("varint", true, &[(0, vec![fieldx(varint_schema(), false, false, &[]), fieldx(<BTreeMap<u16, String> as Model>::schema(), false, false, &[]), fieldx(<i16 as Model>::schema(), false, false, &[])]), (67108864, vec![fieldx(varint_schema(), false, false, &[])]), (67108865, vec![fieldx(varint_schema(), false, false, &[]), fieldx(<[BTreeMap<u32, u8>; 1] as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E143::V0 { error: f_0, b: f_1, name: f_2 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E143::V1 { r#type: f_0 } => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E143::V2(f_0, f_1, f_2) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let error: u64 = (0u64 as u64); let b: BTreeMap<u16, String> = <BTreeMap<u16, String> as Model>::gen(r); let name: i16 = <i16 as Model>::gen(r); E143::V0 { error, b, name } } 1 => { let r#type: u64 = (67108864u64 as u64); E143::V1 { r#type } } 2 => { let t0: u64 = (67108865u64 as u64); let t1: [BTreeMap<u32, u8>; 1] = <[BTreeMap<u32, u8>; 1] as Model>::gen(r); let t2: u32 = <u32 as Model>::gen(r); E143::V2(t0, t1, t2) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E143::V0 { error: f_0, b: f_1, name: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E143::V1 { r#type: f_0 } => { f_0.borrows(f); } E143::V2(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u64_varint)] pub enum E144 { V0(#[speedy(varint)] u64), #[speedy(tag = 197400472418537)] V1, #[speedy(tag = 6798192393230909072)] V2 { #[speedy(varint)] value: u64, out: bool, length: BTreeMap<u16, usize> }, #[speedy(tag = 93322577)] V3(#[speedy(varint)] u64, [u16; 2], String) }
impl Model for E144 {
    fn schema() -> String { enum_schema("varint", true, &[(0, vec![fieldx(varint_schema(), false, false, &[])]), (197400472418537, vec![]), (6798192393230909072, vec![fieldx(varint_schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[]), fieldx(<BTreeMap<u16, usize> as Model>::schema(), false, false, &[])]), (93322577, vec![fieldx(varint_schema(), false, false, &[]), fieldx(<[u16; 2] as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E144::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E144::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E144::V2 { value: f_0, out: f_1, length: f_2 } => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E144::V3(f_0, f_1, f_2) => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let t0: u64 = (0u64 as u64); E144::V0(t0) } 1 => { let value: u64 = (6798192393230909072u64 as u64); let out: bool = <bool as Model>::gen(r); let length: BTreeMap<u16, usize> = <BTreeMap<u16, usize> as Model>::gen(r); E144::V2 { value, out, length } } 2 => { let t0: u64 = (93322577u64 as u64); let t1: [u16; 2] = <[u16; 2] as Model>::gen(r); let t2: String = <String as Model>::gen(r); E144::V3(t0, t1, t2) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E144::V0(f_0) => { f_0.borrows(f); } E144::V1 => {  } E144::V2 { value: f_0, out: f_1, length: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E144::V3(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint, peek_tag)] pub enum E145 { V0(#[speedy(varint)] u64), V1 { #[speedy(varint)] a: u64, result: String, y: usize }, #[speedy(tag = 3761308029904)] V2 { #[speedy(varint)] x: u64 }, V3 { #[speedy(varint)] tag: u64, data: E143, out: (u16, (), Vec<char>,) }, V4(#[speedy(varint)] u64), #[speedy(tag = 219)] V5(#[speedy(varint)] u64) }
impl Model for E145 {
    fn schema() -> String { enum_schema("varint", true, &[(0, vec![fieldx(varint_schema(), false, false, &[])]), (1, vec![fieldx(varint_schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<usize as Model>::schema(), false, false, &[])]), (3761308029904, vec![fieldx(varint_schema(), false, false, &[])]), (3761308029905, vec![fieldx(varint_schema(), false, false, &[]), fieldx(<E143 as Model>::schema(), false, false, &[]), fieldx(<(u16, (), Vec<char>,) as Model>::schema(), false, false, &[])]), (3761308029906, vec![fieldx(varint_schema(), false, false, &[])]), (219, vec![fieldx(varint_schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E145::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E145::V1 { a: f_0, result: f_1, y: f_2 } => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E145::V2 { x: f_0 } => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E145::V3 { tag: f_0, data: f_1, out: f_2 } => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E145::V4(f_0) => { o.push_str("[5,["); f_0.val(o); o.push_str("]]"); } E145::V5(f_0) => { o.push_str("[6,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let t0: u64 = (0u64 as u64); E145::V0(t0) } 1 => { let a: u64 = (1u64 as u64); let result: String = <String as Model>::gen(r); let y: usize = <usize as Model>::gen(r); E145::V1 { a, result, y } } 2 => { let x: u64 = (3761308029904u64 as u64); E145::V2 { x } } 3 => { let tag: u64 = (3761308029905u64 as u64); let data: E143 = <E143 as Model>::gen(r); let out: (u16, (), Vec<char>,) = <(u16, (), Vec<char>,) as Model>::gen(r); E145::V3 { tag, data, out } } 4 => { let t0: u64 = (3761308029906u64 as u64); E145::V4(t0) } 5 => { let t0: u64 = (219u64 as u64); E145::V5(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E145::V0(f_0) => { f_0.borrows(f); } E145::V1 { a: f_0, result: f_1, y: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E145::V2 { x: f_0 } => { f_0.borrows(f); } E145::V3 { tag: f_0, data: f_1, out: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E145::V4(f_0) => { f_0.borrows(f); } E145::V5(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G146<T> { pub bytes: Vec<T>, pub slice: bool, pub reader: T }
impl<T: Model + Clone + 'static> Model for G146<T> {
    fn schema() -> String { struct_schema(&[fieldx(<Vec<T> as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.bytes.val(o); o.push(','); self.slice.val(o); o.push(','); self.reader.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let bytes: Vec<T> = <Vec<T> as Model>::gen(r); let slice: bool = <bool as Model>::gen(r); let reader: T = <T as Model>::gen(r); G146 { bytes, slice, reader } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.bytes.borrows(f); self.slice.borrows(f); self.reader.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G147<T>(pub Box<T>, #[speedy(length_type = u64_varint)] pub BTreeMap<u8, T>, #[speedy(constant_prefix = "ab\u{e9}")] pub T);
impl<T: Model + Clone + 'static> Model for G147<T> {
    fn schema() -> String { struct_schema(&[fieldx(<Box<T> as Model>::schema(), false, false, &[]), fieldx(with_lt(<BTreeMap<u8, T> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[97, 98, 195, 169])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Box<T> = <Box<T> as Model>::gen(r); let t1: BTreeMap<u8, T> = { gen_upto::<BTreeMap<u8, T>>(r, "varint") }; let t2: T = <T as Model>::gen(r); G147(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum H148<T, U> { V0 { r#type: Option<Vec<U>>, size: T, error: U }, V1(Box<T>), V2 { r#type: BTreeMap<u8, T> }, Z }
impl<T: Model + Clone + 'static, U: Model + Clone + 'static> Model for H148<T, U> {
    fn schema() -> String { enum_schema("u64", false, &[(0, vec![fieldx(<Option<Vec<U>> as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[]), fieldx(<U as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<Box<T> as Model>::schema(), false, false, &[])]), (2, vec![fieldx(<BTreeMap<u8, T> as Model>::schema(), false, false, &[])]), (3, vec![])]) }
    fn val(&self, o: &mut String) { match self { H148::V0 { r#type: f_0, size: f_1, error: f_2 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } H148::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } H148::V2 { r#type: f_0 } => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } H148::Z => { o.push_str("[4,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let r#type: Option<Vec<U>> = <Option<Vec<U>> as Model>::gen(r); let size: T = <T as Model>::gen(r); let error: U = <U as Model>::gen(r); H148::V0 { r#type, size, error } } 1 => { let t0: Box<T> = <Box<T> as Model>::gen(r); H148::V1(t0) } 2 => { let r#type: BTreeMap<u8, T> = <BTreeMap<u8, T> as Model>::gen(r); H148::V2 { r#type } } 3 => {  H148::Z } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { H148::V0 { r#type: f_0, size: f_1, error: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } H148::V1(f_0) => { f_0.borrows(f); } H148::V2 { r#type: f_0 } => { f_0.borrows(f); } H148::Z => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct G149<T, U>(pub u32, pub T, pub U);
impl<T: Model + Clone + 'static, U: Model + Clone + 'static> Model for G149<T, U> {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[]), fieldx(<U as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = <u32 as Model>::gen(r); let t1: T = <T as Model>::gen(r); let t2: U = <U as Model>::gen(r); G149(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct G150<T>(pub T, pub u32);
impl<T: Model + Clone + 'static> Model for G150<T> {
    fn schema() -> String { struct_schema(&[fieldx(<T as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: T = <T as Model>::gen(r); let t1: u32 = <u32 as Model>::gen(r); G150(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(transparent)] pub struct G151<T>(pub T);
impl<T: Model + Clone + 'static> Model for G151<T> {
    fn schema() -> String { struct_schema(&[fieldx(T::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { G151(T::gen(r)) }
}
#[derive(Clone, Readable, Writable)] pub struct G152<T, U>(pub [T; 2], pub U, pub T);
impl<T: Model + Clone + 'static, U: Model + Clone + 'static> Model for G152<T, U> {
    fn schema() -> String { struct_schema(&[fieldx(<[T; 2] as Model>::schema(), false, false, &[]), fieldx(<U as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: [T; 2] = <[T; 2] as Model>::gen(r); let t1: U = <U as Model>::gen(r); let t2: T = <T as Model>::gen(r); G152(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G153<T, U> { pub t1: U, pub count: [T; 2], pub flags: T }
impl<T: Model + Clone + 'static, U: Model + Clone + 'static> Model for G153<T, U> {
    fn schema() -> String { struct_schema(&[fieldx(<U as Model>::schema(), false, false, &[]), fieldx(<[T; 2] as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.t1.val(o); o.push(','); self.count.val(o); o.push(','); self.flags.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: U = <U as Model>::gen(r); let count: [T; 2] = <[T; 2] as Model>::gen(r); let flags: T = <T as Model>::gen(r); G153 { t1, count, flags } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); self.count.borrows(f); self.flags.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct R154 { pub n: u8, pub kids: Vec<R155>, pub end: u16 }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum R155 { One(Box<R154>), Two { a: Option<Box<R155>>, b: u8 }, Leaf(u32) }
impl Model for R154 {
    fn schema() -> String { deeper(|d| if d > 5 { any_schema() } else { struct_schema(&[field(u8::schema()), field(<Vec<R155> as Model>::schema()), field(u16::schema())]) }) }
    fn val(&self, o: &mut String) { o.push('['); self.n.val(o); o.push(','); self.kids.val(o); o.push(','); self.end.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|d| R154 { n: u8::gen(r), kids: if d >= 3 { vec![] } else { Model::gen(r) }, end: u16::gen(r) }) }
}
impl Model for R155 {
    fn schema() -> String { deeper(|d| if d > 5 { any_schema() } else { enum_schema("u8", false, &[(0, vec![field(<R154 as Model>::schema())]), (1, vec![field(<Option<Box<R155>> as Model>::schema()), field(u8::schema())]), (2, vec![field(u32::schema())])]) }) }
    fn val(&self, o: &mut String) { match self { R155::One(x) => { o.push_str("[1,["); x.val(o); } R155::Two { a, b } => { o.push_str("[2,["); a.val(o); o.push(','); b.val(o); } R155::Leaf(x) => { o.push_str("[3,["); x.val(o); } } o.push_str("]]"); }
    fn gen(r: &mut Rng) -> Self { deeper(|d| match if d >= 4 { 2 } else { r.below(3) } { 0 => R155::One(Model::gen(r)), 1 => R155::Two { a: if d >= 3 { None } else { Model::gen(r) }, b: u8::gen(r) }, _ => R155::Leaf(u32::gen(r)) }) }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct Vz {}
impl Model for Vz { fn schema() -> String { struct_schema(&[]) } fn val(&self, o: &mut String) { o.push_str("[]") } fn gen(_: &mut Rng) -> Self { Vz {} } fn borrows(&self, _: &mut dyn FnMut(Borrow)) {} }
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct V156 { pub len: u16, pub result: u8 }
impl Model for V156 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); ({self.len}).val(o); o.push(','); ({self.result}).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: u16 = <u16 as Model>::gen(r); let result: u8 = <u8 as Model>::gen(r); V156 { len, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct V157(pub i8, pub i8);
impl Model for V157 {
    fn schema() -> String { struct_schema(&[fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); ({self.0}).val(o); o.push(','); ({self.1}).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: i8 = <i8 as Model>::gen(r); let t1: i8 = <i8 as Model>::gen(r); V157(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(transparent)] pub struct V158(pub u32);
impl Model for V158 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = <u32 as Model>::gen(r); V158(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct V159 { pub len: u64, pub id: u32, pub result: u16 }
impl Model for V159 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); ({self.len}).val(o); o.push(','); ({self.id}).val(o); o.push(','); ({self.result}).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: u64 = <u64 as Model>::gen(r); let id: u32 = <u32 as Model>::gen(r); let result: u16 = <u16 as Model>::gen(r); V159 { len, id, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V160<'a> { #[speedy(constant_prefix = false)] pub count: &'a [V158] }
impl Model for V160<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<&'static [V158] as Model>::schema(), false, false, &[0])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: &'static [V158] = <&'static [V158] as Model>::gen(r); V160 { count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V161<'a>(#[speedy(length = ..)] pub &'a [u32]);
impl Model for V161<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static [u32] as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static [u32] = <&'static [u32] as Model>::gen(r); V161(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V162<'a>(#[speedy(constant_prefix = "ab\u{e9}")] pub &'a [u32], pub u32);
impl Model for V162<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<&'static [u32] as Model>::schema(), false, false, &[97, 98, 195, 169]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static [u32] = <&'static [u32] as Model>::gen(r); let t1: u32 = <u32 as Model>::gen(r); V162(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V163<'a> { pub size: u8, #[speedy(length = ..)] pub y: &'a [Vz] }
impl Model for V163<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static [Vz] as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.size).val(o); o.push(','); (self.y).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let size: u8 = <u8 as Model>::gen(r); let y: &'static [Vz] = &[]; V163 { size, y } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.size.borrows(f); self.y.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub enum E164<'a> { A(#[speedy(length_type = u8)] &'a [f32]), B { n: u8, #[speedy(length = n / 2)] v: &'a [V159] }, C(u16) }
impl Model for E164<'static> {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(with_lt(<&'static [f32] as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]), (1, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static [V159] as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"div\",\"a\":{\"x\":\"f\",\"i\":1},\"b\":{\"x\":\"n\",\"n\":2}},\"nm\":\"v\"}"), false, false, &[])]), (2, vec![fieldx(<u16 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E164::A(v) => { o.push_str("[1,["); v.val(o); o.push_str("]]"); } E164::B { n, v } => { o.push_str("[2,["); n.val(o); o.push(','); v.val(o); o.push_str("]]"); } E164::C(x) => { o.push_str("[3,["); x.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => E164::A(gen_upto(r, "u8")), 1 => { let n = r.below(24) as u8; let k = (n / 2) as usize + r.chance(1, 14) as usize; E164::B { n, v: GenN::gen_n(r, k) } } _ => E164::C(Model::gen(r)) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E164::A(v) => v.borrows(f), E164::B { v, .. } => v.borrows(f), _ => {} } }
}
pub fn register(v: &mut Vec<TypeOps>) {
    reg!(v, "d basic"; S1);
    reg!(v, "d basic"; (u8, S1, u16));
    reg!(v, "d basic"; S2);
    reg!(v, "d basic"; Option<S2>);
    reg!(v, "d basic"; S3);
    reg!(v, "d basic"; Vec<S3>);
    reg!(v, "d basic"; E4<'static>);
    reg!(v, "d basic"; (u8, E4<'static>, u16));
    reg!(v, "d prim"; S5);
    reg!(v, "d prim"; Vec<[S5; 2]>);
    reg!(v, "d prim"; Vec<S5>);
    reg_be!(v, "d prim"; Vec<S5>);
    reg!(v, "d prim"; S6);
    reg!(v, "d prim"; Vec<(S6, u8)>);
    reg!(v, "d prim"; Box<[S6]>);
    reg_be!(v, "d prim"; [S6; 2]);
    reg!(v, "d prim"; S7);
    reg!(v, "d prim"; Vec<[S7; 2]>);
    reg!(v, "d prim"; Box<[S7]>);
    reg_le!(v, "d prim dref"; &'static [S7]);
    reg_le!(v, "d prim dref"; (u8, &'static [S7]));
    reg_le!(v, "d prim"; Vec<S7>);
    reg!(v, "d prim"; S8);
    reg!(v, "d prim"; Cow<'static, [S8]>);
    reg!(v, "d prim"; [S8; 3]);
    reg!(v, "d prim"; S9);
    reg!(v, "d prim"; Vec<(S9, u8)>);
    reg!(v, "d prim"; [S9; 3]);
    reg_le!(v, "d prim dref mref"; &'static [S9]);
    reg_le!(v, "d prim"; [S9; 2]);
    reg!(v, "d prim"; S10);
    reg!(v, "d prim"; Vec<(S10, u8)>);
    reg!(v, "d prim"; Cow<'static, [S10]>);
    reg!(v, "d prim"; S11);
    reg!(v, "d prim"; (u8, [S11; 2], Vec<S11>));
    reg!(v, "d prim"; Vec<[S11; 2]>);
    reg!(v, "d prim"; S12);
    reg!(v, "d prim"; Vec<(S12, u8)>);
    reg!(v, "d prim"; Cow<'static, [S12]>);
    reg!(v, "d prim"; S13);
    reg!(v, "d prim"; Vec<S13>);
    reg!(v, "d prim"; [S13; 3]);
    reg_le!(v, "d prim"; [S13; 2]);
    reg!(v, "d prim"; Q14);
    reg!(v, "d prim"; Cow<'static, [Q14]>);
    reg!(v, "d prim"; Q15);
    reg!(v, "d prim"; Vec<Q15>);
    reg!(v, "d prim"; Q16);
    reg!(v, "d prim"; [Q16; 3]);
    reg!(v, "d prim"; Q17);
    reg!(v, "d prim"; [Q17; 3]);
    reg!(v, "d prim"; S18);
    reg!(v, "d prim"; Vec<S18>);
    reg!(v, "d prim"; [S18; 2]);
    reg!(v, "d prim"; Cow<'static, [S18]>);
    reg_le!(v, "d prim dref mref"; &'static [S18]);
    reg!(v, "d len open"; S19);
    reg!(v, "d len open"; S20);
    reg!(v, "d len"; S21);
    reg!(v, "d len"; S22<'static>);
    reg!(v, "d len"; L23);
    reg!(v, "d len"; L24);
    reg!(v, "d len"; L25<'static>);
    reg!(v, "d len dref"; L26<'static>);
    reg!(v, "d len"; L27);
    reg!(v, "d len"; L28);
    reg!(v, "d len"; L29);
    reg!(v, "d len"; L30<'static>);
    reg!(v, "d len"; L31);
    reg!(v, "d len"; L32);
    reg!(v, "d len"; L33);
    reg!(v, "d len"; L34);
    reg!(v, "d len"; L35);
    reg!(v, "d len"; L36);
    reg!(v, "d len"; L37);
    reg!(v, "d len"; L38);
    reg!(v, "d len"; L39<'static>);
    reg!(v, "d len"; L40);
    reg!(v, "d len"; L41);
    reg!(v, "d len"; L42);
    reg!(v, "d len"; L43);
    reg!(v, "d len"; L44);
    reg!(v, "d len dref"; L45<'static>);
    reg!(v, "d len"; L46);
    reg!(v, "d len"; L47);
    reg!(v, "d len"; L48);
    reg!(v, "d len"; L49);
    reg!(v, "d len"; L50);
    reg!(v, "d len dref"; L51<'static>);
    reg!(v, "d enum"; E52);
    reg!(v, "d enum"; E54);
    reg!(v, "d enum"; E55);
    reg!(v, "d enum"; E56);
    reg!(v, "d enum"; E57);
    reg!(v, "d enum"; E58);
    reg!(v, "d enum"; E59<'static>);
    reg!(v, "d enum"; E60);
    reg!(v, "d enum"; E61);
    reg!(v, "d enum"; E62);
    reg!(v, "d enum"; E63<'static>);
    reg!(v, "d enum"; E64);
    reg!(v, "d enum"; E65);
    reg!(v, "d enum open"; E66<'static>);
    reg!(v, "d attr"; S67);
    reg!(v, "d attr open"; S68<'static>);
    reg!(v, "d attr"; S69);
    reg!(v, "d attr"; S70);
    reg!(v, "d attr"; S71<'static>);
    reg!(v, "d attr open"; E72);
    reg!(v, "d attr"; K73);
    reg!(v, "d attr"; [K73; 3]);
    reg!(v, "d attr"; Box<[K73]>);
    reg!(v, "d attr"; K74);
    reg!(v, "d attr"; (u8, [K74; 2]));
    reg!(v, "d attr"; Vec<K74>);
    reg!(v, "d attr"; K75);
    reg!(v, "d attr"; Box<[K75]>);
    reg!(v, "d attr"; Vec<K75>);
    reg!(v, "d attr"; K76);
    reg!(v, "d attr"; Cow<'static, [K76]>);
    reg!(v, "d attr"; Vec<K76>);
    reg!(v, "d attr open"; K77);
    reg!(v, "d attr"; K78);
    reg!(v, "d attr"; Cow<'static, [K78]>);
    reg!(v, "d attr"; [K78; 3]);
    reg!(v, "d attr"; K79);
    reg!(v, "d attr"; Cow<'static, [K79]>);
    reg!(v, "d attr"; [K79; 3]);
    reg!(v, "d attr"; K80);
    reg!(v, "d attr"; Vec<K80>);
    reg!(v, "d attr"; (u8, [K80; 2]));
    reg!(v, "d attr open"; K81);
    reg!(v, "d attr"; K82);
    reg!(v, "d attr"; Vec<K82>);
    reg!(v, "d attr"; Box<[K82]>);
    reg!(v, "d attr open"; K83);
    reg!(v, "d attr"; K84);
    reg!(v, "d attr"; Box<[K84]>);
    reg!(v, "d attr"; Cow<'static, [K84]>);
    reg!(v, "d attr"; K85);
    reg!(v, "d attr"; Box<[K85]>);
    reg!(v, "d attr"; [K85; 3]);
    reg!(v, "d attr open"; K86);
    reg!(v, "d attr"; K87);
    reg!(v, "d attr"; Vec<K87>);
    reg!(v, "d attr"; [K87; 3]);
    reg!(v, "d attr open"; K88);
    reg!(v, "d attr"; K89);
    reg!(v, "d attr"; Vec<K89>);
    reg!(v, "d attr"; Box<[K89]>);
    reg!(v, "d attr"; K90);
    reg!(v, "d attr"; Cow<'static, [K90]>);
    reg!(v, "d attr"; [K90; 3]);
    reg!(v, "d attr"; K91);
    reg!(v, "d attr"; (u8, [K91; 2]));
    reg!(v, "d attr"; Box<[K91]>);
    reg!(v, "d attr"; K92);
    reg!(v, "d attr"; (u8, [K92; 2]));
    reg!(v, "d attr"; [K92; 3]);
    reg!(v, "d attr"; K93);
    reg!(v, "d attr"; Vec<K93>);
    reg!(v, "d attr"; [K93; 3]);
    reg!(v, "d attr open"; K94);
    reg!(v, "d attr"; P95);
    reg!(v, "d attr"; P96);
    reg!(v, "d attr"; P97);
    reg!(v, "d attr"; P98);
    reg!(v, "d attr"; P99);
    reg!(v, "d attr"; P100);
    reg!(v, "d attr"; P101);
    reg!(v, "d attr"; P102);
    reg!(v, "d attr"; P103);
    reg!(v, "d attr"; P104);
    reg!(v, "d attr"; P105);
    reg!(v, "d attr"; P106);
    reg!(v, "d attr open"; D107);
    reg!(v, "d attr open"; D108);
    reg!(v, "d attr open"; D109);
    reg!(v, "d attr open"; D110);
    reg!(v, "d attr open"; D111);
    reg!(v, "d attr open"; D112);
    reg!(v, "d attr open"; D113);
    reg!(v, "d attr open"; D114);
    reg!(v, "d attr open"; D115);
    reg!(v, "d attr open"; D116);
    reg!(v, "d attr open"; D117);
    reg!(v, "d attr open"; D118);
    reg!(v, "d attr open"; D119);
    reg!(v, "d attr open"; D120);
    reg!(v, "d attr open"; D121<'static>);
    reg!(v, "d attr open"; D122<'static>);
    reg!(v, "d attr open"; D123<'static>);
    reg!(v, "d attr open"; D124);
    reg!(v, "d attr open"; D125);
    reg!(v, "d varint"; S126);
    reg!(v, "d varint"; Vec<S126>);
    reg!(v, "d varint"; X127);
    reg!(v, "d varint"; X128);
    reg!(v, "d varint"; X129);
    reg!(v, "d varint"; X130);
    reg!(v, "d varint"; X131);
    reg!(v, "d varint"; Vec<X131>);
    reg!(v, "d varint"; [X131; 2]);
    reg!(v, "d varint"; X132);
    reg!(v, "d varint"; Vec<X132>);
    reg!(v, "d varint"; [X132; 2]);
    reg!(v, "d varint"; E133);
    reg!(v, "d varint"; E134);
    reg!(v, "d enum peek"; E135);
    reg!(v, "d enum peek"; Option<E135>);
    reg!(v, "d enum peek"; (u8, E135, u16));
    reg!(v, "d enum peek"; E136);
    reg!(v, "d enum peek"; E137);
    reg!(v, "d enum peek"; Option<E137>);
    reg!(v, "d enum peek"; BTreeMap<u8, E137>);
    reg!(v, "d enum peek"; E138);
    reg!(v, "d enum peek"; E139);
    reg!(v, "d enum peek"; [E139; 3]);
    reg!(v, "d enum peek"; BTreeMap<u8, E139>);
    reg!(v, "d enum peek"; E140);
    reg!(v, "d enum peek"; Box<E140>);
    reg!(v, "d enum peek"; BTreeMap<u8, E140>);
    reg!(v, "d enum peek"; E141);
    reg!(v, "d enum peek"; Box<E141>);
    reg!(v, "d enum peek"; Vec<E141>);
    reg!(v, "d enum peek"; E142);
    reg!(v, "d enum peek"; [E142; 3]);
    reg!(v, "d enum peek"; Vec<E142>);
    reg!(v, "d enum peek"; E143);
    reg!(v, "d enum peek"; E144);
    reg!(v, "d enum peek"; E145);
    reg!(v, "d generic"; Option<G146<f32>>);
    reg!(v, "d generic"; Vec<G146<String>>);
    reg!(v, "d generic"; G146<Vec<String>>);
    reg!(v, "d generic"; BTreeMap<u8, G147<u32>>);
    reg!(v, "d generic"; [G147<Cow<'static, str>>; 2]);
    reg!(v, "d generic"; H148<[u8; 3], bool>);
    reg!(v, "d generic"; [H148<Vec<String>, Vec<u16>>; 2]);
    reg!(v, "d generic prim"; Vec<G149<char, char>>);
    reg!(v, "d generic prim"; G149<u64, u64>);
    reg!(v, "d generic prim"; G150<f32>);
    reg!(v, "d generic prim"; Option<G150<u32>>);
    reg!(v, "d generic prim"; Vec<G151<String>>);
    reg!(v, "d generic prim"; Box<[G151<u8>]>);
    reg!(v, "d generic prim"; [G151<f64>; 3]);
    reg!(v, "d generic prim"; [G151<u32>; 3]);
    reg!(v, "d generic prim"; Cow<'static, [G151<u64>]>);
    reg!(v, "d generic prim"; G152<bool, [u16; 2]>);
    reg!(v, "d generic prim"; Option<G152<i16, u32>>);
    reg!(v, "d generic prim"; BTreeMap<u8, G153<[u16; 2], char>>);
    reg!(v, "d generic prim"; G153<char, u8>);
    reg!(v, "d rec"; R155);
    reg!(v, "d rec"; R154);
    reg!(v, "d view"; V156);
    reg!(v, "d view"; V157);
    reg!(v, "d view"; V158);
    reg!(v, "d view"; V159);
    reg!(v, "d view dref"; V160<'static>);
    reg!(v, "d view open dref"; V161<'static>);
    reg!(v, "d view dref"; V162<'static>);
    reg!(v, "d view open dref"; V163<'static>);
    reg!(v, "d view dref"; E164<'static>);
}
