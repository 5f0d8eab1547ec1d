// Made by tools/gen_derive.py. Derived types and their schemas.
use harness::model::*;
use harness::ops::TypeOps;
use harness::util::*;
use harness::{reg, reg_be, reg_le};
use speedy::{Endianness, Readable, Writable};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::net::*;
use std::num::*;
use std::time::{Duration, SystemTime};
use uuid::Uuid;

#[derive(Clone, Readable, Writable)] pub struct S1(pub BTreeMap<char, Vec<u128>>, pub Option<Option<Uuid>>, pub u32);
impl Model for S1 {
    fn schema() -> String { struct_schema(&[fieldx(<BTreeMap<char, Vec<u128>> as Model>::schema(), false, false, &[]), fieldx(<Option<Option<Uuid>> as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: BTreeMap<char, Vec<u128>> = <BTreeMap<char, Vec<u128>> as Model>::gen(r); let t1: Option<Option<Uuid>> = <Option<Option<Uuid>> as Model>::gen(r); let t2: u32 = <u32 as Model>::gen(r); S1(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct S2 { pub t1: char, pub slice: (u8,), pub kind: HashSet<u8>, pub reader: HashMap<u8, bool> }
impl Model for S2 {
    fn schema() -> String { struct_schema(&[fieldx(<char as Model>::schema(), false, false, &[]), fieldx(<(u8,) as Model>::schema(), false, false, &[]), fieldx(<HashSet<u8> as Model>::schema(), false, false, &[]), fieldx(<HashMap<u8, bool> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.t1.val(o); o.push(','); self.slice.val(o); o.push(','); self.kind.val(o); o.push(','); self.reader.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: char = <char as Model>::gen(r); let slice: (u8,) = <(u8,) as Model>::gen(r); let kind: HashSet<u8> = <HashSet<u8> as Model>::gen(r); let reader: HashMap<u8, bool> = <HashMap<u8, bool> as Model>::gen(r); S2 { t1, slice, kind, reader } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); self.slice.borrows(f); self.kind.borrows(f); self.reader.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S3 { pub t0: HashMap<char, u128> }
impl Model for S3 {
    fn schema() -> String { struct_schema(&[fieldx(<HashMap<char, u128> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.t0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: HashMap<char, u128> = <HashMap<char, u128> as Model>::gen(r); S3 { t0 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub enum E4 { V0(f32), V1 { bytes: i16 }, V2 { slice: bool, flags: f32 }, V3, V4, V5(Uuid, (u64, String,), f32) }
impl Model for E4 {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(<f32 as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<i16 as Model>::schema(), false, false, &[])]), (2, vec![fieldx(<bool as Model>::schema(), false, false, &[]), fieldx(<f32 as Model>::schema(), false, false, &[])]), (3, vec![]), (4, vec![]), (5, vec![fieldx(<Uuid as Model>::schema(), false, false, &[]), fieldx(<(u64, String,) as Model>::schema(), false, false, &[]), fieldx(<f32 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E4::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E4::V1 { bytes: f_0 } => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E4::V2 { slice: f_0, flags: f_1 } => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E4::V3 => { o.push_str("[4,[");  o.push_str("]]"); } E4::V4 => { o.push_str("[5,[");  o.push_str("]]"); } E4::V5(f_0, f_1, f_2) => { o.push_str("[6,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let t0: f32 = <f32 as Model>::gen(r); E4::V0(t0) } 1 => { let bytes: i16 = <i16 as Model>::gen(r); E4::V1 { bytes } } 2 => { let slice: bool = <bool as Model>::gen(r); let flags: f32 = <f32 as Model>::gen(r); E4::V2 { slice, flags } } 3 => {  E4::V3 } 4 => {  E4::V4 } 5 => { let t0: Uuid = <Uuid as Model>::gen(r); let t1: (u64, String,) = <(u64, String,) as Model>::gen(r); let t2: f32 = <f32 as Model>::gen(r); E4::V5(t0, t1, t2) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E4::V0(f_0) => { f_0.borrows(f); } E4::V1 { bytes: f_0 } => { f_0.borrows(f); } E4::V2 { slice: f_0, flags: f_1 } => { f_0.borrows(f); f_1.borrows(f); } E4::V3 => {  } E4::V4 => {  } E4::V5(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct S5(pub f64);
impl Model for S5 {
    fn schema() -> String { struct_schema(&[fieldx(<f64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: f64 = <f64 as Model>::gen(r); S5(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S6(pub u128, pub u128, pub u32, pub u32);
impl Model for S6 {
    fn schema() -> String { struct_schema(&[fieldx(<u128 as Model>::schema(), false, false, &[]), fieldx(<u128 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u128 = <u128 as Model>::gen(r); let t1: u128 = <u128 as Model>::gen(r); let t2: u32 = <u32 as Model>::gen(r); let t3: u32 = <u32 as Model>::gen(r); S6(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct S7 { pub t1: i8, pub count: i8, pub reader: i8, pub value: i8, pub name: i8, pub id: i8 }
impl Model for S7 {
    fn schema() -> String { struct_schema(&[fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); { let x = self.t1; x.val(o); } o.push(','); { let x = self.count; x.val(o); } o.push(','); { let x = self.reader; x.val(o); } o.push(','); { let x = self.value; x.val(o); } o.push(','); { let x = self.name; x.val(o); } o.push(','); { let x = self.id; x.val(o); } o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: i8 = <i8 as Model>::gen(r); let count: i8 = <i8 as Model>::gen(r); let reader: i8 = <i8 as Model>::gen(r); let value: i8 = <i8 as Model>::gen(r); let name: i8 = <i8 as Model>::gen(r); let id: i8 = <i8 as Model>::gen(r); S7 { t1, count, reader, value, name, id } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { { let x = self.t1; x.borrows(f); } { let x = self.count; x.borrows(f); } { let x = self.reader; x.borrows(f); } { let x = self.value; x.borrows(f); } { let x = self.name; x.borrows(f); } { let x = self.id; x.borrows(f); } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C, packed)] pub struct S8(pub u8, pub u8, pub u8, pub u8);
impl Model for S8 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); { let x = self.0; x.val(o); } o.push(','); { let x = self.1; x.val(o); } o.push(','); { let x = self.2; x.val(o); } o.push(','); { let x = self.3; x.val(o); } o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); let t2: u8 = <u8 as Model>::gen(r); let t3: u8 = <u8 as Model>::gen(r); S8(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { { let x = self.0; x.borrows(f); } { let x = self.1; x.borrows(f); } { let x = self.2; x.borrows(f); } { let x = self.3; x.borrows(f); } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(transparent)] pub struct S9(pub u8);
impl Model for S9 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); S9(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S10 { pub slice: [u16; 2], pub y: [u16; 2], pub value: [u16; 2], pub kind: [u16; 2], pub result: [u16; 2] }
impl Model for S10 {
    fn schema() -> String { struct_schema(&[fieldx(<[u16; 2] as Model>::schema(), false, false, &[]), fieldx(<[u16; 2] as Model>::schema(), false, false, &[]), fieldx(<[u16; 2] as Model>::schema(), false, false, &[]), fieldx(<[u16; 2] as Model>::schema(), false, false, &[]), fieldx(<[u16; 2] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.slice.val(o); o.push(','); self.y.val(o); o.push(','); self.value.val(o); o.push(','); self.kind.val(o); o.push(','); self.result.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let slice: [u16; 2] = <[u16; 2] as Model>::gen(r); let y: [u16; 2] = <[u16; 2] as Model>::gen(r); let value: [u16; 2] = <[u16; 2] as Model>::gen(r); let kind: [u16; 2] = <[u16; 2] as Model>::gen(r); let result: [u16; 2] = <[u16; 2] as Model>::gen(r); S10 { slice, y, value, kind, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.slice.borrows(f); self.y.borrows(f); self.value.borrows(f); self.kind.borrows(f); self.result.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct S11 { pub x: u32, pub b: [u32; 2], pub bytes: [u32; 2], pub t0: u32, pub data: f32 }
impl Model for S11 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<[u32; 2] as Model>::schema(), false, false, &[]), fieldx(<[u32; 2] as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<f32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.x.val(o); o.push(','); self.b.val(o); o.push(','); self.bytes.val(o); o.push(','); self.t0.val(o); o.push(','); self.data.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let x: u32 = <u32 as Model>::gen(r); let b: [u32; 2] = <[u32; 2] as Model>::gen(r); let bytes: [u32; 2] = <[u32; 2] as Model>::gen(r); let t0: u32 = <u32 as Model>::gen(r); let data: f32 = <f32 as Model>::gen(r); S11 { x, b, bytes, t0, data } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.x.borrows(f); self.b.borrows(f); self.bytes.borrows(f); self.t0.borrows(f); self.data.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S12 { pub kind: u16, pub count: u16, pub length: u32 }
impl Model for S12 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.kind.val(o); o.push(','); self.count.val(o); o.push(','); self.length.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let kind: u16 = <u16 as Model>::gen(r); let count: u16 = <u16 as Model>::gen(r); let length: u32 = <u32 as Model>::gen(r); S12 { kind, count, length } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.kind.borrows(f); self.count.borrows(f); self.length.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct S13(pub [u8; 3], pub [u8; 3]);
impl Model for S13 {
    fn schema() -> String { struct_schema(&[fieldx(<[u8; 3] as Model>::schema(), false, false, &[]), fieldx(<[u8; 3] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); { let x = self.0; x.val(o); } o.push(','); { let x = self.1; x.val(o); } o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: [u8; 3] = <[u8; 3] as Model>::gen(r); let t1: [u8; 3] = <[u8; 3] as Model>::gen(r); S13(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { { let x = self.0; x.borrows(f); } { let x = self.1; x.borrows(f); } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct Q14 { pub tag: u16, pub name: u32, pub out: u16 }
impl Model for Q14 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.tag).val(o); o.push(','); (self.name).val(o); o.push(','); (self.out).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let tag: u16 = <u16 as Model>::gen(r); let name: u32 = <u32 as Model>::gen(r); let out: u16 = <u16 as Model>::gen(r); Q14 { tag, name, out } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.tag.borrows(f); self.name.borrows(f); self.out.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct Q15(pub u8, pub u8, pub u16);
impl Model for Q15 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); let t2: u16 = <u16 as Model>::gen(r); Q15(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct Q16 { pub t1: u32, pub data: u16, pub count: u16 }
impl Model for Q16 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t1).val(o); o.push(','); (self.data).val(o); o.push(','); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: u32 = <u32 as Model>::gen(r); let data: u16 = <u16 as Model>::gen(r); let count: u16 = <u16 as Model>::gen(r); Q16 { t1, data, count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); self.data.borrows(f); self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct Q17(pub u16, pub u8, pub u8, pub u8, pub u8);
impl Model for Q17 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(','); (self.3).val(o); o.push(','); (self.4).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); let t2: u8 = <u8 as Model>::gen(r); let t3: u8 = <u8 as Model>::gen(r); let t4: u8 = <u8 as Model>::gen(r); Q17(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] #[speedy(unsafe_is_primitive = always)] pub struct S18 { pub a: u32, pub out: u32, pub size: u32 }
impl Model for S18 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.a.val(o); o.push(','); self.out.val(o); o.push(','); self.size.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let a: u32 = <u32 as Model>::gen(r); let out: u32 = <u32 as Model>::gen(r); let size: u32 = <u32 as Model>::gen(r); S18 { a, out, size } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.a.borrows(f); self.out.borrows(f); self.size.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S19<'a> { pub len: u8, #[speedy(length = len / 2)] pub tag: Vec<u32>, #[speedy(length_type = u64)] pub reader: Vec<Cow<'a, HashSet<u16>>>, #[speedy(varint)] pub size: u64, #[speedy(length = ..)] pub bytes: BTreeSet<u16> }
impl Model for S19<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<u32> as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"div\",\"a\":{\"x\":\"f\",\"i\":1},\"b\":{\"x\":\"n\",\"n\":2}},\"nm\":\"tag\"}"), false, false, &[]), fieldx(with_lt(<Vec<Cow<'static, HashSet<u16>>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(with_lt(<BTreeSet<u16> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.len.val(o); o.push(','); self.tag.val(o); o.push(','); self.reader.val(o); o.push(','); self.size.val(o); o.push(','); self.bytes.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: u8 = (r.below(24) as u8); let tag: Vec<u32> = { let n = (len / 2) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <Vec<u32> as GenN>::gen_n(r, n) }; let reader: Vec<Cow<'static, HashSet<u16>>> = { gen_upto::<Vec<Cow<'static, HashSet<u16>>>>(r, "u64") }; let size: u64 = <u64 as Model>::gen(r); let bytes: BTreeSet<u16> = <BTreeSet<u16> as Model>::gen(r); S19 { len, tag, reader, size, bytes } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); self.tag.borrows(f); self.reader.borrows(f); self.size.borrows(f); self.bytes.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S20(pub u16, pub u8);
impl Model for S20 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = (r.below(24) as u16); let t1: u8 = (r.below(24) as u8); S20(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S21<'a> { #[speedy(length_type = u32)] pub y: Vec<Option<char>>, #[speedy(length_type = u64)] pub a: &'a [u8], #[speedy(length = ..)] pub out: BTreeMap<i16, i8> }
impl Model for S21<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<Option<char>> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(with_lt(<&'static [u8] as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(with_lt(<BTreeMap<i16, i8> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.y.val(o); o.push(','); self.a.val(o); o.push(','); self.out.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: Vec<Option<char>> = { gen_upto::<Vec<Option<char>>>(r, "u32") }; let a: &'static [u8] = { gen_upto::<&'static [u8]>(r, "u64") }; let out: BTreeMap<i16, i8> = <BTreeMap<i16, i8> as Model>::gen(r); S21 { y, a, out } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.y.borrows(f); self.a.borrows(f); self.out.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S22 { #[speedy(length_type = u16)] pub t1: String, pub bytes: u32, pub t0: u8, pub data: u8, #[speedy(length_type = u64)] pub flags: HashSet<u8> }
impl Model for S22 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<HashSet<u8> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.t1.val(o); o.push(','); self.bytes.val(o); o.push(','); self.t0.val(o); o.push(','); self.data.val(o); o.push(','); self.flags.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: String = { gen_upto::<String>(r, "u16") }; let bytes: u32 = (r.below(24) as u32); let t0: u8 = (r.below(24) as u8); let data: u8 = (r.below(24) as u8); let flags: HashSet<u8> = { gen_upto::<HashSet<u8>>(r, "u64") }; S22 { t1, bytes, t0, data, flags } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); self.bytes.borrows(f); self.t0.borrows(f); self.data.borrows(f); self.flags.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S23<'a> { #[speedy(length_type = u8)] pub size: Cow<'a, HashSet<u32>>, pub value: u32, #[speedy(length = value)] pub out: HashSet<String> }
impl Model for S23<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, HashSet<u32>> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(with_lt(<HashSet<String> as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"f\",\"i\":2},\"nm\":\"out\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.size.val(o); o.push(','); self.value.val(o); o.push(','); self.out.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let size: Cow<'static, HashSet<u32>> = { gen_upto::<Cow<'static, HashSet<u32>>>(r, "u8") }; let value: u32 = (r.below(24) as u32); let out: HashSet<String> = { let n = (value) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <HashSet<String> as GenN>::gen_n(r, n) }; S23 { size, value, out } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.size.borrows(f); self.value.borrows(f); self.out.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S24<'a>(#[speedy(length_type = u7)] pub Cow<'a, [i64]>, pub S3, #[speedy(length_type = u64)] pub Cow<'a, HashMap<u16, u8>>, #[speedy(length_type = u8)] pub BTreeSet<i16>, #[speedy(length_type = u16)] pub Cow<'a, [i8]>);
impl Model for S24<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, [i64]> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(<S3 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, HashMap<u16, u8>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(with_lt(<BTreeSet<i16> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, [i8]> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Cow<'static, [i64]> = { gen_upto::<Cow<'static, [i64]>>(r, "u7") }; let t1: S3 = <S3 as Model>::gen(r); let t2: Cow<'static, HashMap<u16, u8>> = { gen_upto::<Cow<'static, HashMap<u16, u8>>>(r, "u64") }; let t3: BTreeSet<i16> = { gen_upto::<BTreeSet<i16>>(r, "u8") }; let t4: Cow<'static, [i8]> = { gen_upto::<Cow<'static, [i8]>>(r, "u16") }; S24(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S25<'a>(#[speedy(length_type = u8)] pub Cow<'a, BTreeSet<u16>>, #[speedy(varint)] pub u64, #[speedy(length = ..)] pub Vec<i128>);
impl Model for S25<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, BTreeSet<u16>> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(with_lt(<Vec<i128> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Cow<'static, BTreeSet<u16>> = { gen_upto::<Cow<'static, BTreeSet<u16>>>(r, "u8") }; let t1: u64 = <u64 as Model>::gen(r); let t2: Vec<i128> = <Vec<i128> as Model>::gen(r); S25(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S26(pub (u32, i32, char,), #[speedy(varint)] pub u64, #[speedy(length = ..)] pub HashSet<u8>);
impl Model for S26 {
    fn schema() -> String { struct_schema(&[fieldx(<(u32, i32, char,) as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(with_lt(<HashSet<u8> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: (u32, i32, char,) = <(u32, i32, char,) as Model>::gen(r); let t1: u64 = <u64 as Model>::gen(r); let t2: HashSet<u8> = <HashSet<u8> as Model>::gen(r); S26(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S27 { pub key: u8, #[speedy(length_type = u64_varint)] pub rest: BTreeMap<u64, i16>, #[speedy(length = key / 2)] pub size: HashSet<char> }
impl Model for S27 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<BTreeMap<u64, i16> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<HashSet<char> as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"div\",\"a\":{\"x\":\"f\",\"i\":1},\"b\":{\"x\":\"n\",\"n\":2}},\"nm\":\"size\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.key.val(o); o.push(','); self.rest.val(o); o.push(','); self.size.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let key: u8 = (r.below(24) as u8); let rest: BTreeMap<u64, i16> = { gen_upto::<BTreeMap<u64, i16>>(r, "varint") }; let size: HashSet<char> = { let n = (key / 2) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <HashSet<char> as GenN>::gen_n(r, n) }; S27 { key, rest, size } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.key.borrows(f); self.rest.borrows(f); self.size.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S28 { pub len: u32, #[speedy(length_type = u64_varint)] pub b: Vec<u16>, #[speedy(length = ..)] pub x: Vec<u8> }
impl Model for S28 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<u16> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.len.val(o); o.push(','); self.b.val(o); o.push(','); self.x.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: u32 = (r.below(24) as u32); let b: Vec<u16> = { gen_upto::<Vec<u16>>(r, "varint") }; let x: Vec<u8> = <Vec<u8> as Model>::gen(r); S28 { len, b, x } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); self.b.borrows(f); self.x.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S29 { #[speedy(length_type = u7)] pub rest: HashSet<bool>, #[speedy(length_type = u32)] pub flags: BTreeMap<String, u128>, #[speedy(length = ..)] pub error: HashSet<i16> }
impl Model for S29 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<HashSet<bool> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(with_lt(<BTreeMap<String, u128> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(with_lt(<HashSet<i16> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.rest.val(o); o.push(','); self.flags.val(o); o.push(','); self.error.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let rest: HashSet<bool> = { gen_upto::<HashSet<bool>>(r, "u7") }; let flags: BTreeMap<String, u128> = { gen_upto::<BTreeMap<String, u128>>(r, "u32") }; let error: HashSet<i16> = <HashSet<i16> as Model>::gen(r); S29 { rest, flags, error } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.rest.borrows(f); self.flags.borrows(f); self.error.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S30<'a>(#[speedy(length_type = u64)] pub Cow<'a, HashSet<u32>>, pub u8, #[speedy(length_type = u16)] pub Cow<'a, BTreeSet<u16>>, pub u8, #[speedy(length = t1 / 2)] pub String);
impl Model for S30<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, HashSet<u32>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeSet<u16>> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"div\",\"a\":{\"x\":\"f\",\"i\":2},\"b\":{\"x\":\"n\",\"n\":2}},\"nm\":\"t4\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Cow<'static, HashSet<u32>> = { gen_upto::<Cow<'static, HashSet<u32>>>(r, "u64") }; let t1: u8 = (r.below(24) as u8); let t2: Cow<'static, BTreeSet<u16>> = { gen_upto::<Cow<'static, BTreeSet<u16>>>(r, "u16") }; let t3: u8 = (r.below(24) as u8); let t4: String = { let n = (t1 / 2) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <String as GenN>::gen_n(r, n) }; S30(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S31<'a>(#[speedy(length_type = u64)] pub BTreeMap<u32, S3>, #[speedy(length_type = u8)] pub Cow<'a, HashSet<u32>>, #[speedy(length_type = u64)] pub Cow<'a, HashMap<u16, u8>>);
impl Model for S31<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<u32, S3> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, HashSet<u32>> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, HashMap<u16, u8>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: BTreeMap<u32, S3> = { gen_upto::<BTreeMap<u32, S3>>(r, "u64") }; let t1: Cow<'static, HashSet<u32>> = { gen_upto::<Cow<'static, HashSet<u32>>>(r, "u8") }; let t2: Cow<'static, HashMap<u16, u8>> = { gen_upto::<Cow<'static, HashMap<u16, u8>>>(r, "u64") }; S31(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S32<'a>(#[speedy(length_type = u7)] pub Cow<'a, HashMap<u16, u8>>, #[speedy(length_type = u32)] pub Option<BTreeSet<u16>>, #[speedy(varint)] pub u64, #[speedy(varint)] pub u64);
impl Model for S32<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, HashMap<u16, u8>> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(with_lt(<Option<BTreeSet<u16>> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Cow<'static, HashMap<u16, u8>> = { gen_upto::<Cow<'static, HashMap<u16, u8>>>(r, "u7") }; let t1: Option<BTreeSet<u16>> = { gen_upto::<Option<BTreeSet<u16>>>(r, "u32") }; let t2: u64 = <u64 as Model>::gen(r); let t3: u64 = <u64 as Model>::gen(r); S32(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S33(#[speedy(varint)] pub u64, #[speedy(length_type = u16)] pub HashMap<String, Option<Uuid>>, pub u8, pub u16, #[speedy(length_type = u16)] pub BTreeSet<char>);
impl Model for S33 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(with_lt(<HashMap<String, Option<Uuid>> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(with_lt(<BTreeSet<char> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let t1: HashMap<String, Option<Uuid>> = { gen_upto::<HashMap<String, Option<Uuid>>>(r, "u16") }; let t2: u8 = (r.below(24) as u8); let t3: u16 = (r.below(24) as u16); let t4: BTreeSet<char> = { gen_upto::<BTreeSet<char>>(r, "u16") }; S33(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S34<'a> { pub t1: char, pub out: u8, #[speedy(length_type = u64_varint)] pub result: Cow<'a, [u32]>, pub reader: Vec<bool>, #[speedy(length_type = u8)] pub kind: HashMap<u8, String> }
impl Model for S34<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<char as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, [u32]> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(<Vec<bool> as Model>::schema(), false, false, &[]), fieldx(with_lt(<HashMap<u8, String> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.t1.val(o); o.push(','); self.out.val(o); o.push(','); self.result.val(o); o.push(','); self.reader.val(o); o.push(','); self.kind.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: char = <char as Model>::gen(r); let out: u8 = (r.below(24) as u8); let result: Cow<'static, [u32]> = { gen_upto::<Cow<'static, [u32]>>(r, "varint") }; let reader: Vec<bool> = <Vec<bool> as Model>::gen(r); let kind: HashMap<u8, String> = { gen_upto::<HashMap<u8, String>>(r, "u8") }; S34 { t1, out, result, reader, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); self.out.borrows(f); self.result.borrows(f); self.reader.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S35<'a> { pub tag: u8, #[speedy(varint)] pub kind: u64, #[speedy(length_type = u64_varint)] pub t0: Cow<'a, [i16]> }
impl Model for S35<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, [i16]> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.tag.val(o); o.push(','); self.kind.val(o); o.push(','); self.t0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let tag: u8 = (r.below(24) as u8); let kind: u64 = <u64 as Model>::gen(r); let t0: Cow<'static, [i16]> = { gen_upto::<Cow<'static, [i16]>>(r, "varint") }; S35 { tag, kind, t0 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.tag.borrows(f); self.kind.borrows(f); self.t0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S36<'a>(#[speedy(length_type = u64_varint)] pub BTreeMap<u64, S34<'a>>, #[speedy(length_type = u8)] pub Cow<'a, BTreeSet<u16>>, #[speedy(length_type = u64)] pub Vec<u8>, #[speedy(length_type = u8)] pub BTreeSet<u32>);
impl Model for S36<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<u64, S34<'static>> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeSet<u16>> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(with_lt(<BTreeSet<u32> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: BTreeMap<u64, S34<'static>> = { gen_upto::<BTreeMap<u64, S34<'static>>>(r, "varint") }; let t1: Cow<'static, BTreeSet<u16>> = { gen_upto::<Cow<'static, BTreeSet<u16>>>(r, "u8") }; let t2: Vec<u8> = { gen_upto::<Vec<u8>>(r, "u64") }; let t3: BTreeSet<u32> = { gen_upto::<BTreeSet<u32>>(r, "u8") }; S36(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S37<'a> { #[speedy(length_type = u64)] pub count: Cow<'a, BTreeMap<u16, Cow<'a, HashSet<u16>>>>, pub id: u8, #[speedy(length = id / 2)] pub key: Cow<'a, [u128]>, #[speedy(length_type = u64_varint)] pub len: String }
impl Model for S37<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, BTreeMap<u16, Cow<'static, HashSet<u16>>>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, [u128]> as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"div\",\"a\":{\"x\":\"f\",\"i\":2},\"b\":{\"x\":\"n\",\"n\":2}},\"nm\":\"key\"}"), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.count.val(o); o.push(','); self.id.val(o); o.push(','); self.key.val(o); o.push(','); self.len.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: Cow<'static, BTreeMap<u16, Cow<'static, HashSet<u16>>>> = { gen_upto::<Cow<'static, BTreeMap<u16, Cow<'static, HashSet<u16>>>>>(r, "u64") }; let id: u8 = (r.below(24) as u8); let key: Cow<'static, [u128]> = { let n = (id / 2) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <Cow<'static, [u128]> as GenN>::gen_n(r, n) }; let len: String = { gen_upto::<String>(r, "varint") }; S37 { count, id, key, len } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); self.id.borrows(f); self.key.borrows(f); self.len.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S38<'a> { #[speedy(length_type = u64_varint)] pub key: BTreeMap<String, u16>, #[speedy(length_type = u7)] pub r#type: &'a str, pub value: u16 }
impl Model for S38<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<String, u16> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.key.val(o); o.push(','); self.r#type.val(o); o.push(','); self.value.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let key: BTreeMap<String, u16> = { gen_upto::<BTreeMap<String, u16>>(r, "varint") }; let r#type: &'static str = { gen_upto::<&'static str>(r, "u7") }; let value: u16 = (r.below(24) as u16); S38 { key, r#type, value } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.key.borrows(f); self.r#type.borrows(f); self.value.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S39<'a> { pub t1: u8, #[speedy(length_type = u7)] pub name: Cow<'a, str> }
impl Model for S39<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, str> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.t1.val(o); o.push(','); self.name.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: u8 = (r.below(24) as u8); let name: Cow<'static, str> = { gen_upto::<Cow<'static, str>>(r, "u7") }; S39 { t1, name } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); self.name.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S40 { #[speedy(length_type = u64_varint)] pub t0: String, #[speedy(length_type = u8)] pub r#type: HashMap<u16, String>, #[speedy(length_type = u7)] pub result: Vec<u16> }
impl Model for S40 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<HashMap<u16, String> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<Vec<u16> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.t0.val(o); o.push(','); self.r#type.val(o); o.push(','); self.result.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: String = { gen_upto::<String>(r, "varint") }; let r#type: HashMap<u16, String> = { gen_upto::<HashMap<u16, String>>(r, "u8") }; let result: Vec<u16> = { gen_upto::<Vec<u16>>(r, "u7") }; S40 { t0, r#type, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t0.borrows(f); self.r#type.borrows(f); self.result.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S41(pub u8, #[speedy(length_type = u64)] pub Vec<u8>, pub (i32, u16,));
impl Model for S41 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(<(i32, u16,) as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = (r.below(24) as u8); let t1: Vec<u8> = { gen_upto::<Vec<u8>>(r, "u64") }; let t2: (i32, u16,) = <(i32, u16,) as Model>::gen(r); S41(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S42<'a> { #[speedy(length_type = u8)] pub data: HashSet<u16>, #[speedy(length_type = u32)] pub a: Cow<'a, BTreeMap<u16, Vec<bool>>>, #[speedy(length_type = u16)] pub flags: Cow<'a, HashMap<u16, u8>>, #[speedy(length_type = u32)] pub b: Cow<'a, [u32]> }
impl Model for S42<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<HashSet<u16> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeMap<u16, Vec<bool>>> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, HashMap<u16, u8>> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, [u32]> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.data.val(o); o.push(','); self.a.val(o); o.push(','); self.flags.val(o); o.push(','); self.b.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let data: HashSet<u16> = { gen_upto::<HashSet<u16>>(r, "u8") }; let a: Cow<'static, BTreeMap<u16, Vec<bool>>> = { gen_upto::<Cow<'static, BTreeMap<u16, Vec<bool>>>>(r, "u32") }; let flags: Cow<'static, HashMap<u16, u8>> = { gen_upto::<Cow<'static, HashMap<u16, u8>>>(r, "u16") }; let b: Cow<'static, [u32]> = { gen_upto::<Cow<'static, [u32]>>(r, "u32") }; S42 { data, a, flags, b } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.data.borrows(f); self.a.borrows(f); self.flags.borrows(f); self.b.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S43(#[speedy(length_type = u8)] pub Vec<f32>, #[speedy(length_type = u8)] pub BTreeMap<u64, u32>, pub u8);
impl Model for S43 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<f32> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<BTreeMap<u64, u32> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<f32> = { gen_upto::<Vec<f32>>(r, "u8") }; let t1: BTreeMap<u64, u32> = { gen_upto::<BTreeMap<u64, u32>>(r, "u8") }; let t2: u8 = (r.below(24) as u8); S43(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S44<'a>(#[speedy(length_type = u7)] pub String, pub u8, #[speedy(length_type = u64_varint)] pub Option<HashSet<u8>>, #[speedy(length_type = u32)] pub Option<Cow<'a, BTreeMap<u16, IpAddr>>>, #[speedy(length = t1)] pub Cow<'a, BTreeSet<u16>>);
impl Model for S44<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Option<HashSet<u8>> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<Option<Cow<'static, BTreeMap<u16, IpAddr>>> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeSet<u16>> as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"f\",\"i\":2},\"nm\":\"t4\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: String = { gen_upto::<String>(r, "u7") }; let t1: u8 = (r.below(24) as u8); let t2: Option<HashSet<u8>> = { gen_upto::<Option<HashSet<u8>>>(r, "varint") }; let t3: Option<Cow<'static, BTreeMap<u16, IpAddr>>> = { gen_upto::<Option<Cow<'static, BTreeMap<u16, IpAddr>>>>(r, "u32") }; let t4: Cow<'static, BTreeSet<u16>> = { let n = (t1) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <Cow<'static, BTreeSet<u16>> as GenN>::gen_n(r, n) }; S44(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L45(#[speedy(length_type = u7)] pub Vec<u8>);
impl Model for L45 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<u8> = { gen_upto::<Vec<u8>>(r, "u7") }; L45(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L46 { #[speedy(length_type = u7)] pub rest: String }
impl Model for L46 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.rest).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let rest: String = { gen_upto::<String>(r, "u7") }; L46 { rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.rest.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L47 { #[speedy(length_type = u7)] pub a: BTreeMap<u8, u16> }
impl Model for L47 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<u8, u16> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.a).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let a: BTreeMap<u8, u16> = { gen_upto::<BTreeMap<u8, u16>>(r, "u7") }; L47 { a } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.a.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L48 { #[speedy(length_type = u7)] pub t0: Option<Vec<u8>> }
impl Model for L48 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<Vec<u8>> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<Vec<u8>> = { gen_upto::<Option<Vec<u8>>>(r, "u7") }; L48 { t0 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L49<'a>(#[speedy(length_type = u7)] pub &'a str);
impl Model for L49<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static str = { gen_upto::<&'static str>(r, "u7") }; L49(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L50 { #[speedy(length_type = u7)] pub key: Vec<Option<u16>> }
impl Model for L50 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<Option<u16>> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.key).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let key: Vec<Option<u16>> = { gen_upto::<Vec<Option<u16>>>(r, "u7") }; L50 { key } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.key.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L51(#[speedy(length_type = u8)] pub BTreeMap<u8, u16>);
impl Model for L51 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<u8, u16> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: BTreeMap<u8, u16> = { gen_upto::<BTreeMap<u8, u16>>(r, "u8") }; L51(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L52 { #[speedy(length_type = u8)] pub y: HashSet<u16> }
impl Model for L52 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<HashSet<u16> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.y).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: HashSet<u16> = { gen_upto::<HashSet<u16>>(r, "u8") }; L52 { y } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.y.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L53<'a>(#[speedy(length_type = u8)] pub Cow<'a, [u32]>);
impl Model for L53<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, [u32]> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Cow<'static, [u32]> = { gen_upto::<Cow<'static, [u32]>>(r, "u8") }; L53(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L54 { #[speedy(length_type = u8)] pub count: Vec<Option<u16>> }
impl Model for L54 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<Option<u16>> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: Vec<Option<u16>> = { gen_upto::<Vec<Option<u16>>>(r, "u8") }; L54 { count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L55(#[speedy(length_type = u16)] pub Vec<u64>);
impl Model for L55 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<u64> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<u64> = { gen_upto::<Vec<u64>>(r, "u16") }; L55(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L56(#[speedy(length_type = u16)] pub BTreeMap<u8, u16>);
impl Model for L56 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<u8, u16> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: BTreeMap<u8, u16> = { gen_upto::<BTreeMap<u8, u16>>(r, "u16") }; L56(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L57<'a>(#[speedy(length_type = u16)] pub Cow<'a, [u32]>);
impl Model for L57<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, [u32]> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Cow<'static, [u32]> = { gen_upto::<Cow<'static, [u32]>>(r, "u16") }; L57(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L58(#[speedy(length_type = u16)] pub Option<Vec<u8>>);
impl Model for L58 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<Vec<u8>> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<Vec<u8>> = { gen_upto::<Option<Vec<u8>>>(r, "u16") }; L58(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L59<'a>(#[speedy(length_type = u16)] pub &'a [u8]);
impl Model for L59<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static [u8] as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static [u8] = { gen_upto::<&'static [u8]>(r, "u16") }; L59(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L60(#[speedy(length_type = u16)] pub Vec<Option<u16>>);
impl Model for L60 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<Option<u16>> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<Option<u16>> = { gen_upto::<Vec<Option<u16>>>(r, "u16") }; L60(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L61(#[speedy(length_type = u32)] pub Vec<i8>);
impl Model for L61 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<i8> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<i8> = { gen_upto::<Vec<i8>>(r, "u32") }; L61(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L62 { #[speedy(length_type = u32)] pub len: String }
impl Model for L62 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.len).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: String = { gen_upto::<String>(r, "u32") }; L62 { len } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L63<'a> { #[speedy(length_type = u32)] pub kind: Cow<'a, [u32]> }
impl Model for L63<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, [u32]> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.kind).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let kind: Cow<'static, [u32]> = { gen_upto::<Cow<'static, [u32]>>(r, "u32") }; L63 { kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L64<'a>(#[speedy(length_type = u32)] pub &'a [u8]);
impl Model for L64<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static [u8] as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static [u8] = { gen_upto::<&'static [u8]>(r, "u32") }; L64(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L65(#[speedy(length_type = u64)] pub Vec<i128>);
impl Model for L65 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<i128> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<i128> = { gen_upto::<Vec<i128>>(r, "u64") }; L65(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L66 { #[speedy(length_type = u64)] pub rest: BTreeMap<u8, u16> }
impl Model for L66 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<u8, u16> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.rest).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let rest: BTreeMap<u8, u16> = { gen_upto::<BTreeMap<u8, u16>>(r, "u64") }; L66 { rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.rest.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L67 { #[speedy(length_type = u64)] pub a: HashSet<u16> }
impl Model for L67 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<HashSet<u16> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.a).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let a: HashSet<u16> = { gen_upto::<HashSet<u16>>(r, "u64") }; L67 { a } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.a.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L68<'a> { #[speedy(length_type = u64)] pub b: &'a str }
impl Model for L68<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.b).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let b: &'static str = { gen_upto::<&'static str>(r, "u64") }; L68 { b } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.b.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L69 { #[speedy(length_type = u64)] pub r#type: Vec<Option<u16>> }
impl Model for L69 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<Option<u16>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.r#type).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let r#type: Vec<Option<u16>> = { gen_upto::<Vec<Option<u16>>>(r, "u64") }; L69 { r#type } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.r#type.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L70 { #[speedy(length_type = u64_varint)] pub rest: Vec<u128> }
impl Model for L70 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<u128> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.rest).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let rest: Vec<u128> = { gen_upto::<Vec<u128>>(r, "varint") }; L70 { rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.rest.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L71(#[speedy(length_type = u64_varint)] pub BTreeMap<u8, u16>);
impl Model for L71 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<u8, u16> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: BTreeMap<u8, u16> = { gen_upto::<BTreeMap<u8, u16>>(r, "varint") }; L71(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L72 { #[speedy(length_type = u64_varint)] pub a: HashSet<u16> }
impl Model for L72 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<HashSet<u16> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.a).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let a: HashSet<u16> = { gen_upto::<HashSet<u16>>(r, "varint") }; L72 { a } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.a.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L73<'a> { #[speedy(length_type = u64_varint)] pub key: Cow<'a, [u32]> }
impl Model for L73<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, [u32]> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.key).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let key: Cow<'static, [u32]> = { gen_upto::<Cow<'static, [u32]>>(r, "varint") }; L73 { key } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.key.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L74<'a> { #[speedy(length_type = u64_varint)] pub data: &'a [u8] }
impl Model for L74<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static [u8] as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.data).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let data: &'static [u8] = { gen_upto::<&'static [u8]>(r, "varint") }; L74 { data } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.data.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L75 { #[speedy(length_type = u64_varint)] pub t0: Vec<Option<u16>> }
impl Model for L75 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<Option<u16>> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<Option<u16>> = { gen_upto::<Vec<Option<u16>>>(r, "varint") }; L75 { t0 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u7)] pub enum E76 { #[speedy(tag = 0)] V0(Ipv6Addr, BTreeSet<u8>, Option<u128>), V1, #[speedy(tag = 60)] V2 { r#type: f32 }, #[speedy(tag = 125)] V3(u8, f64) }
impl Model for E76 {
    fn schema() -> String { enum_schema("u7", false, &[(0, vec![fieldx(<Ipv6Addr as Model>::schema(), false, false, &[]), fieldx(<BTreeSet<u8> as Model>::schema(), false, false, &[]), fieldx(<Option<u128> as Model>::schema(), false, false, &[])]), (1, vec![]), (60, vec![fieldx(<f32 as Model>::schema(), false, false, &[])]), (125, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<f64 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E76::V0(f_0, f_1, f_2) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E76::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E76::V2 { r#type: f_0 } => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E76::V3(f_0, f_1) => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let t0: Ipv6Addr = <Ipv6Addr as Model>::gen(r); let t1: BTreeSet<u8> = <BTreeSet<u8> as Model>::gen(r); let t2: Option<u128> = <Option<u128> as Model>::gen(r); E76::V0(t0, t1, t2) } 1 => {  E76::V1 } 2 => { let r#type: f32 = <f32 as Model>::gen(r); E76::V2 { r#type } } 3 => { let t0: u8 = <u8 as Model>::gen(r); let t1: f64 = <f64 as Model>::gen(r); E76::V3(t0, t1) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E76::V0(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E76::V1 => {  } E76::V2 { r#type: f_0 } => { f_0.borrows(f); } E76::V3(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u7)] pub enum E77 { #[speedy(tag = 120)] V0 = 0x5, V1 }
impl Model for E77 {
    fn schema() -> String { enum_schema("u7", false, &[(120, vec![]), (121, vec![])]) }
    fn val(&self, o: &mut String) { match self { E77::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E77::V1 => { o.push_str("[2,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => {  E77::V0 } 1 => {  E77::V1 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E77::V0 => {  } E77::V1 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E78 { #[speedy(tag = 254)] V0 { reader: bool, out: Option<i16> } }
impl Model for E78 {
    fn schema() -> String { enum_schema("u8", false, &[(254, vec![fieldx(<bool as Model>::schema(), false, false, &[]), fieldx(<Option<i16> as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E78::V0 { reader: f_0, out: f_1 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let reader: bool = <bool as Model>::gen(r); let out: Option<i16> = <Option<i16> as Model>::gen(r); E78::V0 { reader, out } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E78::V0 { reader: f_0, out: f_1 } => { f_0.borrows(f); f_1.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u8)] pub enum E79 { #[speedy(tag = 192)] V0 = 0x4d, V1, #[speedy(tag = 150)] V2 = 123, V3 = 0xfd, V4 = 0x0, V5 }
impl Model for E79 {
    fn schema() -> String { enum_schema("u8", false, &[(192, vec![]), (193, vec![]), (150, vec![]), (253, vec![]), (0, vec![]), (1, vec![])]) }
    fn val(&self, o: &mut String) { match self { E79::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E79::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E79::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E79::V3 => { o.push_str("[4,[");  o.push_str("]]"); } E79::V4 => { o.push_str("[5,[");  o.push_str("]]"); } E79::V5 => { o.push_str("[6,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => {  E79::V0 } 1 => {  E79::V1 } 2 => {  E79::V2 } 3 => {  E79::V3 } 4 => {  E79::V4 } 5 => {  E79::V5 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E79::V0 => {  } E79::V1 => {  } E79::V2 => {  } E79::V3 => {  } E79::V4 => {  } E79::V5 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16)] pub enum E80<'a> { V0(Vec<Cow<'a, [u8]>>), V1 { slice: u128 }, #[speedy(tag = 6533)] V2(HashSet<i16>), #[speedy(tag = 184)] V3(HashMap<u32, BTreeMap<u64, u8>>) }
impl Model for E80<'static> {
    fn schema() -> String { enum_schema("u16", false, &[(0, vec![fieldx(<Vec<Cow<'static, [u8]>> as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<u128 as Model>::schema(), false, false, &[])]), (6533, vec![fieldx(<HashSet<i16> as Model>::schema(), false, false, &[])]), (184, vec![fieldx(<HashMap<u32, BTreeMap<u64, u8>> as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E80::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E80::V1 { slice: f_0 } => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E80::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E80::V3(f_0) => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let t0: Vec<Cow<'static, [u8]>> = <Vec<Cow<'static, [u8]>> as Model>::gen(r); E80::V0(t0) } 1 => { let slice: u128 = <u128 as Model>::gen(r); E80::V1 { slice } } 2 => { let t0: HashSet<i16> = <HashSet<i16> as Model>::gen(r); E80::V2(t0) } 3 => { let t0: HashMap<u32, BTreeMap<u64, u8>> = <HashMap<u32, BTreeMap<u64, u8>> as Model>::gen(r); E80::V3(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E80::V0(f_0) => { f_0.borrows(f); } E80::V1 { slice: f_0 } => { f_0.borrows(f); } E80::V2(f_0) => { f_0.borrows(f); } E80::V3(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u16)] pub enum E81 { V0 = 0xfac8, V1, #[speedy(tag = 59668)] V2 = 0x10, #[speedy(tag = 60143)] V3 = 0 }
impl Model for E81 {
    fn schema() -> String { enum_schema("u16", false, &[(64200, vec![]), (64201, vec![]), (59668, vec![]), (60143, vec![])]) }
    fn val(&self, o: &mut String) { match self { E81::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E81::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E81::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E81::V3 => { o.push_str("[4,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => {  E81::V0 } 1 => {  E81::V1 } 2 => {  E81::V2 } 3 => {  E81::V3 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E81::V0 => {  } E81::V1 => {  } E81::V2 => {  } E81::V3 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u32)] pub enum E82<'a> { #[speedy(tag = 268435456)] V0, V1(Option<char>, HashSet<String>), V2([[u128; 3]; 1], String, i16), #[speedy(tag = 0)] V3(u64), #[speedy(tag = 137)] V4(u128), V5 { kind: S23<'a>, id: Option<(i16, bool, i128,)>, rest: i8 } }
impl Model for E82<'static> {
    fn schema() -> String { enum_schema("u32", false, &[(268435456, vec![]), (268435457, vec![fieldx(<Option<char> as Model>::schema(), false, false, &[]), fieldx(<HashSet<String> as Model>::schema(), false, false, &[])]), (268435458, vec![fieldx(<[[u128; 3]; 1] as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<i16 as Model>::schema(), false, false, &[])]), (0, vec![fieldx(<u64 as Model>::schema(), false, false, &[])]), (137, vec![fieldx(<u128 as Model>::schema(), false, false, &[])]), (138, vec![fieldx(<S23<'static> as Model>::schema(), false, false, &[]), fieldx(<Option<(i16, bool, i128,)> as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E82::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E82::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E82::V2(f_0, f_1, f_2) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E82::V3(f_0) => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } E82::V4(f_0) => { o.push_str("[5,["); f_0.val(o); o.push_str("]]"); } E82::V5 { kind: f_0, id: f_1, rest: f_2 } => { o.push_str("[6,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => {  E82::V0 } 1 => { let t0: Option<char> = <Option<char> as Model>::gen(r); let t1: HashSet<String> = <HashSet<String> as Model>::gen(r); E82::V1(t0, t1) } 2 => { let t0: [[u128; 3]; 1] = <[[u128; 3]; 1] as Model>::gen(r); let t1: String = <String as Model>::gen(r); let t2: i16 = <i16 as Model>::gen(r); E82::V2(t0, t1, t2) } 3 => { let t0: u64 = <u64 as Model>::gen(r); E82::V3(t0) } 4 => { let t0: u128 = <u128 as Model>::gen(r); E82::V4(t0) } 5 => { let kind: S23<'static> = <S23<'static> as Model>::gen(r); let id: Option<(i16, bool, i128,)> = <Option<(i16, bool, i128,)> as Model>::gen(r); let rest: i8 = <i8 as Model>::gen(r); E82::V5 { kind, id, rest } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E82::V0 => {  } E82::V1(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E82::V2(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E82::V3(f_0) => { f_0.borrows(f); } E82::V4(f_0) => { f_0.borrows(f); } E82::V5 { kind: f_0, id: f_1, rest: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u32)] pub enum E83 { V0 = 0x0 }
impl Model for E83 {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![])]) }
    fn val(&self, o: &mut String) { match self { E83::V0 => { o.push_str("[1,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => {  E83::V0 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E83::V0 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum E84<'a> { V0(f32, [f64; 5]), #[speedy(tag = 18446744073709551613)] V1(u64, HashSet<bool>, Ipv6Addr), #[speedy(tag = 1073741824)] V2 { reader: Vec<u32> }, V3 { key: Ipv6Addr }, #[speedy(tag = 4398046511104)] V4 { t0: BTreeMap<u16, Cow<'a, [u32]>>, tag: u64, b: Cow<'a, HashSet<u16>> }, #[speedy(tag = 50)] V5(S34<'a>) }
impl Model for E84<'static> {
    fn schema() -> String { enum_schema("u64", false, &[(0, vec![fieldx(<f32 as Model>::schema(), false, false, &[]), fieldx(<[f64; 5] as Model>::schema(), false, false, &[])]), (18446744073709551613, vec![fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<HashSet<bool> as Model>::schema(), false, false, &[]), fieldx(<Ipv6Addr as Model>::schema(), false, false, &[])]), (1073741824, vec![fieldx(<Vec<u32> as Model>::schema(), false, false, &[])]), (1073741825, vec![fieldx(<Ipv6Addr as Model>::schema(), false, false, &[])]), (4398046511104, vec![fieldx(<BTreeMap<u16, Cow<'static, [u32]>> as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, HashSet<u16>> as Model>::schema(), false, false, &[])]), (50, vec![fieldx(<S34<'static> as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E84::V0(f_0, f_1) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E84::V1(f_0, f_1, f_2) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E84::V2 { reader: f_0 } => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E84::V3 { key: f_0 } => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } E84::V4 { t0: f_0, tag: f_1, b: f_2 } => { o.push_str("[5,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E84::V5(f_0) => { o.push_str("[6,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let t0: f32 = <f32 as Model>::gen(r); let t1: [f64; 5] = <[f64; 5] as Model>::gen(r); E84::V0(t0, t1) } 1 => { let t0: u64 = <u64 as Model>::gen(r); let t1: HashSet<bool> = <HashSet<bool> as Model>::gen(r); let t2: Ipv6Addr = <Ipv6Addr as Model>::gen(r); E84::V1(t0, t1, t2) } 2 => { let reader: Vec<u32> = <Vec<u32> as Model>::gen(r); E84::V2 { reader } } 3 => { let key: Ipv6Addr = <Ipv6Addr as Model>::gen(r); E84::V3 { key } } 4 => { let t0: BTreeMap<u16, Cow<'static, [u32]>> = <BTreeMap<u16, Cow<'static, [u32]>> as Model>::gen(r); let tag: u64 = <u64 as Model>::gen(r); let b: Cow<'static, HashSet<u16>> = <Cow<'static, HashSet<u16>> as Model>::gen(r); E84::V4 { t0, tag, b } } 5 => { let t0: S34<'static> = <S34<'static> as Model>::gen(r); E84::V5(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E84::V0(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E84::V1(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E84::V2 { reader: f_0 } => { f_0.borrows(f); } E84::V3 { key: f_0 } => { f_0.borrows(f); } E84::V4 { t0: f_0, tag: f_1, b: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E84::V5(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u64)] pub enum E85 { V0, #[speedy(tag = 10223064360006569572)] V1, V2, V3, V4, #[speedy(tag = 10592518143942173803)] V5 = 34359738368 }
impl Model for E85 {
    fn schema() -> String { enum_schema("u64", false, &[(0, vec![]), (10223064360006569572, vec![]), (10223064360006569573, vec![]), (10223064360006569574, vec![]), (10223064360006569575, vec![]), (10592518143942173803, vec![])]) }
    fn val(&self, o: &mut String) { match self { E85::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E85::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E85::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E85::V3 => { o.push_str("[4,[");  o.push_str("]]"); } E85::V4 => { o.push_str("[5,[");  o.push_str("]]"); } E85::V5 => { o.push_str("[6,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => {  E85::V0 } 1 => {  E85::V1 } 2 => {  E85::V2 } 3 => {  E85::V3 } 4 => {  E85::V4 } 5 => {  E85::V5 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E85::V0 => {  } E85::V1 => {  } E85::V2 => {  } E85::V3 => {  } E85::V4 => {  } E85::V5 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E86 { V0 { size: u8 } }
impl Model for E86 {
    fn schema() -> String { enum_schema("varint", false, &[(0, vec![fieldx(<u8 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E86::V0 { size: f_0 } => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let size: u8 = <u8 as Model>::gen(r); E86::V0 { size } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E86::V0 { size: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u64_varint)] pub enum E87 { V0 = 0x80, V1, V2 = 0, V3 = 0x64, V4 = 6494917041436899110, V5 }
impl Model for E87 {
    fn schema() -> String { enum_schema("varint", false, &[(128, vec![]), (129, vec![]), (0, vec![]), (100, vec![]), (6494917041436899110, vec![]), (6494917041436899111, vec![])]) }
    fn val(&self, o: &mut String) { match self { E87::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E87::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E87::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E87::V3 => { o.push_str("[4,[");  o.push_str("]]"); } E87::V4 => { o.push_str("[5,[");  o.push_str("]]"); } E87::V5 => { o.push_str("[6,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => {  E87::V0 } 1 => {  E87::V1 } 2 => {  E87::V2 } 3 => {  E87::V3 } 4 => {  E87::V4 } 5 => {  E87::V5 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E87::V0 => {  } E87::V1 => {  } E87::V2 => {  } E87::V3 => {  } E87::V4 => {  } E87::V5 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u7)] pub enum E88 { V0, V1, V2 = 0x26, V3, V4 = 4, #[speedy(tag = 23)] V5 = 64 }
impl Model for E88 {
    fn schema() -> String { enum_schema("u7", false, &[(0, vec![]), (1, vec![]), (38, vec![]), (39, vec![]), (4, vec![]), (23, vec![])]) }
    fn val(&self, o: &mut String) { match self { E88::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E88::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E88::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E88::V3 => { o.push_str("[4,[");  o.push_str("]]"); } E88::V4 => { o.push_str("[5,[");  o.push_str("]]"); } E88::V5 => { o.push_str("[6,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => {  E88::V0 } 1 => {  E88::V1 } 2 => {  E88::V2 } 3 => {  E88::V3 } 4 => {  E88::V4 } 5 => {  E88::V5 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E88::V0 => {  } E88::V1 => {  } E88::V2 => {  } E88::V3 => {  } E88::V4 => {  } E88::V5 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E89 { V0(u8) }
impl Model for E89 {
    fn schema() -> String { enum_schema("varint", false, &[(0, vec![fieldx(<u8 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E89::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let t0: u8 = (r.below(24) as u8); E89::V0(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E89::V0(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S90(#[speedy(constant_prefix = -3i8)] pub u8, #[speedy(constant_prefix = '\u{20ac}')] pub bool, #[speedy(constant_prefix = -128i8)] pub Vec<char>, #[speedy(constant_prefix = -128i8)] pub BTreeMap<i16, (u128,)>);
impl Model for S90 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[253]), fieldx(<bool as Model>::schema(), false, false, &[226, 130, 172]), fieldx(<Vec<char> as Model>::schema(), false, false, &[128]), fieldx(<BTreeMap<i16, (u128,)> as Model>::schema(), false, false, &[128])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: bool = <bool as Model>::gen(r); let t2: Vec<char> = <Vec<char> as Model>::gen(r); let t3: BTreeMap<i16, (u128,)> = <BTreeMap<i16, (u128,)> as Model>::gen(r); S90(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct S91 { pub rest: char, #[speedy(skip)] pub key: u64 }
impl Model for S91 {
    fn schema() -> String { struct_schema(&[fieldx(<char as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.rest.val(o); o.push(','); self.key.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let rest: char = <char as Model>::gen(r); let key: u64 = <u64 as Model>::gen(r); S91 { rest, key } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.rest.borrows(f); self.key.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S92 { pub id: HashMap<u32, String>, pub y: SystemTime, #[speedy(constant_prefix = b"RU")] pub rest: u16, #[speedy(constant_prefix = 'x')] pub b: u8, pub result: Option<String> }
impl Model for S92 {
    fn schema() -> String { struct_schema(&[fieldx(<HashMap<u32, String> as Model>::schema(), false, false, &[]), fieldx(<SystemTime as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[82, 85]), fieldx(<u8 as Model>::schema(), false, false, &[120]), fieldx(<Option<String> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.id.val(o); o.push(','); self.y.val(o); o.push(','); self.rest.val(o); o.push(','); self.b.val(o); o.push(','); self.result.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let id: HashMap<u32, String> = <HashMap<u32, String> as Model>::gen(r); let y: SystemTime = <SystemTime as Model>::gen(r); let rest: u16 = <u16 as Model>::gen(r); let b: u8 = <u8 as Model>::gen(r); let result: Option<String> = <Option<String> as Model>::gen(r); S92 { id, y, rest, b, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.id.borrows(f); self.y.borrows(f); self.rest.borrows(f); self.b.borrows(f); self.result.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S93 { #[speedy(skip)] pub length: Option<HashMap<char, u8>>, pub rest: (f64,), #[speedy(skip)] pub r#type: (HashMap<u32, u16>,), #[speedy(constant_prefix = b'Z', default_on_eof)] pub b: Vec<HashSet<u8>> }
impl Model for S93 {
    fn schema() -> String { struct_schema(&[fieldx(<Option<HashMap<char, u8>> as Model>::schema(), false, true, &[]), fieldx(<(f64,) as Model>::schema(), false, false, &[]), fieldx(<(HashMap<u32, u16>,) as Model>::schema(), false, true, &[]), fieldx(<Vec<HashSet<u8>> as Model>::schema(), true, false, &[90])]) }
    fn val(&self, o: &mut String) { o.push('['); self.length.val(o); o.push(','); self.rest.val(o); o.push(','); self.r#type.val(o); o.push(','); self.b.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: Option<HashMap<char, u8>> = <Option<HashMap<char, u8>> as Model>::gen(r); let rest: (f64,) = <(f64,) as Model>::gen(r); let r#type: (HashMap<u32, u16>,) = <(HashMap<u32, u16>,) as Model>::gen(r); let b: Vec<HashSet<u8>> = <Vec<HashSet<u8>> as Model>::gen(r); S93 { length, rest, r#type, b } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); self.rest.borrows(f); self.r#type.borrows(f); self.b.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S94<'a> { #[speedy(skip)] pub r#type: i8, #[speedy(constant_prefix = b"RU")] pub result: Option<Cow<'a, HashSet<u16>>>, #[speedy(skip)] pub rest: Cow<'a, [u64]>, pub name: char, #[speedy(default_on_eof, constant_prefix = 'x')] pub slice: f32 }
impl Model for S94<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<i8 as Model>::schema(), false, true, &[]), fieldx(<Option<Cow<'static, HashSet<u16>>> as Model>::schema(), false, false, &[82, 85]), fieldx(<Cow<'static, [u64]> as Model>::schema(), false, true, &[]), fieldx(<char as Model>::schema(), false, false, &[]), fieldx(<f32 as Model>::schema(), true, false, &[120])]) }
    fn val(&self, o: &mut String) { o.push('['); self.r#type.val(o); o.push(','); self.result.val(o); o.push(','); self.rest.val(o); o.push(','); self.name.val(o); o.push(','); self.slice.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let r#type: i8 = <i8 as Model>::gen(r); let result: Option<Cow<'static, HashSet<u16>>> = <Option<Cow<'static, HashSet<u16>>> as Model>::gen(r); let rest: Cow<'static, [u64]> = <Cow<'static, [u64]> as Model>::gen(r); let name: char = <char as Model>::gen(r); let slice: f32 = <f32 as Model>::gen(r); S94 { r#type, result, rest, name, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.r#type.borrows(f); self.result.borrows(f); self.rest.borrows(f); self.name.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S95 { pub name: u32, #[speedy(length = name)] pub size: BTreeSet<String>, #[speedy(varint)] pub data: u64, pub error: u8 }
impl Model for S95 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(with_lt(<BTreeSet<String> as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"f\",\"i\":1},\"nm\":\"size\"}"), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.name.val(o); o.push(','); self.size.val(o); o.push(','); self.data.val(o); o.push(','); self.error.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: u32 = (r.below(24) as u32); let size: BTreeSet<String> = { let n = (name) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <BTreeSet<String> as GenN>::gen_n(r, n) }; let data: u64 = <u64 as Model>::gen(r); let error: u8 = (r.below(24) as u8); S95 { name, size, data, error } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); self.size.borrows(f); self.data.borrows(f); self.error.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E96 { V0, V1(Vec<u8>) }
impl Model for E96 {
    fn schema() -> String { enum_schema("u8", false, &[(0, vec![]), (1, vec![fieldx(<Vec<u8> as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E96::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E96::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => {  E96::V0 } 1 => { let t0: Vec<u8> = <Vec<u8> as Model>::gen(r); E96::V1(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E96::V0 => {  } E96::V1(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K97 { pub count: u16, pub r#type: u16, #[speedy(default_on_eof)] pub value: u16 }
impl Model for K97 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.count).val(o); o.push(','); (self.r#type).val(o); o.push(','); (self.value).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: u16 = <u16 as Model>::gen(r); let r#type: u16 = <u16 as Model>::gen(r); let value: u16 = <u16 as Model>::gen(r); K97 { count, r#type, value } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); self.r#type.borrows(f); self.value.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K98 { pub size: u16, #[speedy(skip)] pub flags: u16 }
impl Model for K98 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.size).val(o); o.push(','); (self.flags).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let size: u16 = <u16 as Model>::gen(r); let flags: u16 = <u16 as Model>::gen(r); K98 { size, flags } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.size.borrows(f); self.flags.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K99 { pub count: u16, #[speedy(constant_prefix = true)] pub flags: u16 }
impl Model for K99 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[1])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.count).val(o); o.push(','); (self.flags).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: u16 = <u16 as Model>::gen(r); let flags: u16 = <u16 as Model>::gen(r); K99 { count, flags } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); self.flags.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K100 { #[speedy(varint)] pub error: u64, pub size: u64, pub slice: u64 }
impl Model for K100 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.error).val(o); o.push(','); (self.size).val(o); o.push(','); (self.slice).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let error: u64 = <u64 as Model>::gen(r); let size: u64 = <u64 as Model>::gen(r); let slice: u64 = <u64 as Model>::gen(r); K100 { error, size, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.error.borrows(f); self.size.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K101 { pub tag: u16, #[speedy(default_on_eof)] pub length: u16 }
impl Model for K101 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.tag).val(o); o.push(','); (self.length).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let tag: u16 = <u16 as Model>::gen(r); let length: u16 = <u16 as Model>::gen(r); K101 { tag, length } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.tag.borrows(f); self.length.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K102 { pub slice: u16, #[speedy(skip)] pub result: u16, pub len: u16 }
impl Model for K102 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, true, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.slice).val(o); o.push(','); (self.result).val(o); o.push(','); (self.len).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let slice: u16 = <u16 as Model>::gen(r); let result: u16 = <u16 as Model>::gen(r); let len: u16 = <u16 as Model>::gen(r); K102 { slice, result, len } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.slice.borrows(f); self.result.borrows(f); self.len.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K103 { pub a: u8, #[speedy(constant_prefix = -3i8)] pub rest: u8, pub result: u8 }
impl Model for K103 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[253]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.a).val(o); o.push(','); (self.rest).val(o); o.push(','); (self.result).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let a: u8 = <u8 as Model>::gen(r); let rest: u8 = <u8 as Model>::gen(r); let result: u8 = <u8 as Model>::gen(r); K103 { a, rest, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.a.borrows(f); self.rest.borrows(f); self.result.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K104 { pub slice: u64, pub out: u64, #[speedy(varint)] pub key: u64 }
impl Model for K104 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.slice).val(o); o.push(','); (self.out).val(o); o.push(','); (self.key).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let slice: u64 = <u64 as Model>::gen(r); let out: u64 = <u64 as Model>::gen(r); let key: u64 = <u64 as Model>::gen(r); K104 { slice, out, key } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.slice.borrows(f); self.out.borrows(f); self.key.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K105 { pub name: u32, pub flags: u32, #[speedy(default_on_eof)] pub t1: u32 }
impl Model for K105 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.name).val(o); o.push(','); (self.flags).val(o); o.push(','); (self.t1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: u32 = <u32 as Model>::gen(r); let flags: u32 = <u32 as Model>::gen(r); let t1: u32 = <u32 as Model>::gen(r); K105 { name, flags, t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); self.flags.borrows(f); self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(packed)] pub struct K106 { #[speedy(skip)] pub y: u8, pub name: u8 }
impl Model for K106 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, true, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); ({self.y}).val(o); o.push(','); ({self.name}).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: u8 = <u8 as Model>::gen(r); let name: u8 = <u8 as Model>::gen(r); K106 { y, name } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(packed)] pub struct K107 { pub rest: u8, #[speedy(default_on_eof)] pub count: u8 }
impl Model for K107 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); ({self.rest}).val(o); o.push(','); ({self.count}).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let rest: u8 = <u8 as Model>::gen(r); let count: u8 = <u8 as Model>::gen(r); K107 { rest, count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct K108 { #[speedy(skip)] pub y: u32 }
impl Model for K108 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.y).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: u32 = <u32 as Model>::gen(r); K108 { y } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.y.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct K109 { #[speedy(constant_prefix = "")] pub slice: u16 }
impl Model for K109 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.slice).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let slice: u16 = <u16 as Model>::gen(r); K109 { slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct K110 { #[speedy(default_on_eof)] pub size: u8 }
impl Model for K110 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.size).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let size: u8 = <u8 as Model>::gen(r); K110 { size } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.size.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K111 { #[speedy(skip)] pub flags: u64, pub kind: u64 }
impl Model for K111 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, true, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.flags).val(o); o.push(','); (self.kind).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let flags: u64 = <u64 as Model>::gen(r); let kind: u64 = <u64 as Model>::gen(r); K111 { flags, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.flags.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K112 { #[speedy(constant_prefix = '\u{20ac}')] pub value: u64, pub flags: u64 }
impl Model for K112 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[226, 130, 172]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.value).val(o); o.push(','); (self.flags).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let value: u64 = <u64 as Model>::gen(r); let flags: u64 = <u64 as Model>::gen(r); K112 { value, flags } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.value.borrows(f); self.flags.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K113 { pub size: u64, #[speedy(varint)] pub tag: u64 }
impl Model for K113 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.size).val(o); o.push(','); (self.tag).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let size: u64 = <u64 as Model>::gen(r); let tag: u64 = <u64 as Model>::gen(r); K113 { size, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.size.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K114 { pub key: u8, pub size: u8, #[speedy(default_on_eof)] pub y: u8 }
impl Model for K114 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.key).val(o); o.push(','); (self.size).val(o); o.push(','); (self.y).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let key: u8 = <u8 as Model>::gen(r); let size: u8 = <u8 as Model>::gen(r); let y: u8 = <u8 as Model>::gen(r); K114 { key, size, y } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.key.borrows(f); self.size.borrows(f); self.y.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K115 { pub count: u8, #[speedy(constant_prefix = '\u{20ac}')] pub name: u8 }
impl Model for K115 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[226, 130, 172])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.count).val(o); o.push(','); (self.name).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: u8 = <u8 as Model>::gen(r); let name: u8 = <u8 as Model>::gen(r); K115 { count, name } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); self.name.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K116 { #[speedy(varint)] pub rest: u64, pub size: u64 }
impl Model for K116 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.rest).val(o); o.push(','); (self.size).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let rest: u64 = <u64 as Model>::gen(r); let size: u64 = <u64 as Model>::gen(r); K116 { rest, size } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.rest.borrows(f); self.size.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K117 { pub key: u8, #[speedy(default_on_eof)] pub rest: u8 }
impl Model for K117 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.key).val(o); o.push(','); (self.rest).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let key: u8 = <u8 as Model>::gen(r); let rest: u8 = <u8 as Model>::gen(r); K117 { key, rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.key.borrows(f); self.rest.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K118 { pub reader: u8, #[speedy(skip)] pub bytes: u8 }
impl Model for K118 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.reader).val(o); o.push(','); (self.bytes).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let reader: u8 = <u8 as Model>::gen(r); let bytes: u8 = <u8 as Model>::gen(r); K118 { reader, bytes } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.reader.borrows(f); self.bytes.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K119 { #[speedy(varint)] pub length: u64, pub y: u64 }
impl Model for K119 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.length).val(o); o.push(','); (self.y).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: u64 = <u64 as Model>::gen(r); let y: u64 = <u64 as Model>::gen(r); K119 { length, y } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); self.y.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P120 { pub b: u16, #[speedy(constant_prefix = b"RU")] pub t1: u8 }
impl Model for P120 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[82, 85])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.b).val(o); o.push(','); (self.t1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let b: u16 = <u16 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); P120 { b, t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.b.borrows(f); self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P121 { pub y: u16, #[speedy(constant_prefix = "ab\u{e9}")] pub count: u8 }
impl Model for P121 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[97, 98, 195, 169])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.y).val(o); o.push(','); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: u16 = <u16 as Model>::gen(r); let count: u8 = <u8 as Model>::gen(r); P121 { y, count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.y.borrows(f); self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P122 { pub kind: u16, #[speedy(constant_prefix = 7u8)] pub t0: u8 }
impl Model for P122 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[7])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.kind).val(o); o.push(','); (self.t0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let kind: u16 = <u16 as Model>::gen(r); let t0: u8 = <u8 as Model>::gen(r); P122 { kind, t0 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.kind.borrows(f); self.t0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P123 { pub y: u16, #[speedy(constant_prefix = 'x')] pub slice: bool }
impl Model for P123 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[120])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.y).val(o); o.push(','); (self.slice).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: u16 = <u16 as Model>::gen(r); let slice: bool = <bool as Model>::gen(r); P123 { y, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.y.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P124 { pub length: u16, #[speedy(constant_prefix = '\u{20ac}')] pub count: bool }
impl Model for P124 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[226, 130, 172])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.length).val(o); o.push(','); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: u16 = <u16 as Model>::gen(r); let count: bool = <bool as Model>::gen(r); P124 { length, count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P125 { pub x: u16, #[speedy(constant_prefix = true)] pub rest: u16 }
impl Model for P125 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[1])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.x).val(o); o.push(','); (self.rest).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let x: u16 = <u16 as Model>::gen(r); let rest: u16 = <u16 as Model>::gen(r); P125 { x, rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.x.borrows(f); self.rest.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P126 { pub len: u16, #[speedy(constant_prefix = b'Z')] pub a: bool }
impl Model for P126 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[90])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.len).val(o); o.push(','); (self.a).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: u16 = <u16 as Model>::gen(r); let a: bool = <bool as Model>::gen(r); P126 { len, a } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); self.a.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P127 { pub len: u16, #[speedy(constant_prefix = -3i8)] pub data: u16 }
impl Model for P127 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[253])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.len).val(o); o.push(','); (self.data).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: u16 = <u16 as Model>::gen(r); let data: u16 = <u16 as Model>::gen(r); P127 { len, data } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); self.data.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P128 { #[speedy(constant_prefix = b"\0\xff\0")] pub name: u8, pub result: u16 }
impl Model for P128 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[0, 255, 0]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.name).val(o); o.push(','); (self.result).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: u8 = <u8 as Model>::gen(r); let result: u16 = <u16 as Model>::gen(r); P128 { name, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); self.result.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P129 { #[speedy(constant_prefix = "")] pub b: String, pub count: u16 }
impl Model for P129 {
    fn schema() -> String { struct_schema(&[fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.b).val(o); o.push(','); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let b: String = <String as Model>::gen(r); let count: u16 = <u16 as Model>::gen(r); P129 { b, count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.b.borrows(f); self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P130 { pub name: u16, #[speedy(constant_prefix = false)] pub b: bool }
impl Model for P130 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[0])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.name).val(o); o.push(','); (self.b).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: u16 = <u16 as Model>::gen(r); let b: bool = <bool as Model>::gen(r); P130 { name, b } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); self.b.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P131 { pub key: u16, #[speedy(constant_prefix = -128i8)] pub x: bool }
impl Model for P131 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[128])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.key).val(o); o.push(','); (self.x).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let key: u16 = <u16 as Model>::gen(r); let x: bool = <bool as Model>::gen(r); P131 { key, x } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.key.borrows(f); self.x.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D132(pub u16, #[speedy(default_on_eof)] pub u8);
impl Model for D132 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); D132(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D133 { pub tag: u8, #[speedy(default_on_eof, varint)] pub t0: u64 }
impl Model for D133 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.tag).val(o); o.push(','); (self.t0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let tag: u8 = <u8 as Model>::gen(r); let t0: u64 = <u64 as Model>::gen(r); D133 { tag, t0 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.tag.borrows(f); self.t0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D134(pub u8, #[speedy(default_on_eof)] pub bool);
impl Model for D134 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: bool = <bool as Model>::gen(r); D134(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D135(pub u16, #[speedy(default_on_eof)] pub char);
impl Model for D135 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<char as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: char = <char as Model>::gen(r); D135(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D136 { pub size: u8, #[speedy(default_on_eof)] pub a: String }
impl Model for D136 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.size).val(o); o.push(','); (self.a).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let size: u8 = <u8 as Model>::gen(r); let a: String = <String as Model>::gen(r); D136 { size, a } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.size.borrows(f); self.a.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D137 { pub y: u16, #[speedy(default_on_eof, length_type = u64)] pub slice: Vec<u8> }
impl Model for D137 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"u64\"}"), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.y).val(o); o.push(','); (self.slice).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: u16 = <u16 as Model>::gen(r); let slice: Vec<u8> = { gen_upto::<Vec<u8>>(r, "u64") }; D137 { y, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.y.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D138 { pub x: u8, #[speedy(default_on_eof)] pub rest: Vec<u32> }
impl Model for D138 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<Vec<u32> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.x).val(o); o.push(','); (self.rest).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let x: u8 = <u8 as Model>::gen(r); let rest: Vec<u32> = <Vec<u32> as Model>::gen(r); D138 { x, rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.x.borrows(f); self.rest.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D139 { pub t0: u16, #[speedy(default_on_eof, length_type = u64, constant_prefix = false)] pub tag: Vec<String> }
impl Model for D139 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<String> as Model>::schema(), "{\"l\":\"u64\"}"), true, false, &[0])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t0).val(o); o.push(','); (self.tag).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let tag: Vec<String> = { gen_upto::<Vec<String>>(r, "u64") }; D139 { t0, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t0.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D140(pub u16, #[speedy(default_on_eof)] pub Option<u16>);
impl Model for D140 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<Option<u16> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: Option<u16> = <Option<u16> as Model>::gen(r); D140(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D141(pub u16, #[speedy(default_on_eof)] pub Option<Vec<u16>>);
impl Model for D141 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<Option<Vec<u16>> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: Option<Vec<u16>> = <Option<Vec<u16>> as Model>::gen(r); D141(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D142(pub u8, #[speedy(default_on_eof)] pub Option<String>);
impl Model for D142 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<Option<String> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: Option<String> = <Option<String> as Model>::gen(r); D142(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D143 { pub result: u8, #[speedy(default_on_eof)] pub key: [u16; 3] }
impl Model for D143 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<[u16; 3] as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.result).val(o); o.push(','); (self.key).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: u8 = <u8 as Model>::gen(r); let key: [u16; 3] = <[u16; 3] as Model>::gen(r); D143 { result, key } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.result.borrows(f); self.key.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D144 { pub length: u16, #[speedy(default_on_eof)] pub result: BTreeMap<u8, u16> }
impl Model for D144 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<BTreeMap<u8, u16> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.length).val(o); o.push(','); (self.result).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: u16 = <u16 as Model>::gen(r); let result: BTreeMap<u8, u16> = <BTreeMap<u8, u16> as Model>::gen(r); D144 { length, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); self.result.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D145(pub u16, #[speedy(default_on_eof)] pub HashSet<u16>);
impl Model for D145 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<HashSet<u16> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: HashSet<u16> = <HashSet<u16> as Model>::gen(r); D145(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D146<'a>(pub u16, #[speedy(default_on_eof)] pub Cow<'a, str>);
impl Model for D146<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, str> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: Cow<'static, str> = <Cow<'static, str> as Model>::gen(r); D146(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D147<'a> { pub slice: u16, #[speedy(default_on_eof, constant_prefix = b'Z')] pub data: Cow<'a, [u16]> }
impl Model for D147<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, [u16]> as Model>::schema(), true, false, &[90])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.slice).val(o); o.push(','); (self.data).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let slice: u16 = <u16 as Model>::gen(r); let data: Cow<'static, [u16]> = <Cow<'static, [u16]> as Model>::gen(r); D147 { slice, data } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.slice.borrows(f); self.data.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D148<'a> { pub error: u16, #[speedy(default_on_eof)] pub t0: Cow<'a, BTreeSet<u8>> }
impl Model for D148<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, BTreeSet<u8>> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.error).val(o); o.push(','); (self.t0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let error: u16 = <u16 as Model>::gen(r); let t0: Cow<'static, BTreeSet<u8>> = <Cow<'static, BTreeSet<u8>> as Model>::gen(r); D148 { error, t0 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.error.borrows(f); self.t0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D149(pub u8, #[speedy(default_on_eof)] pub (u8, u16,));
impl Model for D149 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<(u8, u16,) as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: (u8, u16,) = <(u8, u16,) as Model>::gen(r); D149(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D150(pub u8, #[speedy(default_on_eof, constant_prefix = '\u{20ac}')] pub [u8; 4]);
impl Model for D150 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<[u8; 4] as Model>::schema(), true, false, &[226, 130, 172])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: [u8; 4] = <[u8; 4] as Model>::gen(r); D150(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S151 { pub result: i64, #[speedy(varint)] pub slice: u64 }
impl Model for S151 {
    fn schema() -> String { struct_schema(&[fieldx(<i64 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.result.val(o); o.push(','); self.slice.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: i64 = <i64 as Model>::gen(r); let slice: u64 = <u64 as Model>::gen(r); S151 { result, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.result.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct X152(#[speedy(varint)] pub u64);
impl Model for X152 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); X152(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct X153(#[speedy(varint)] pub u64, pub u8);
impl Model for X153 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); X153(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct X154 { #[speedy(length_type = u64_varint)] pub t1: Vec<u16> }
impl Model for X154 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<u16> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: Vec<u16> = { gen_upto::<Vec<u16>>(r, "varint") }; X154 { t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct X155 { #[speedy(length_type = u64_varint)] pub reader: String, #[speedy(varint)] pub slice: u64 }
impl Model for X155 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.reader).val(o); o.push(','); (self.slice).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let reader: String = { gen_upto::<String>(r, "varint") }; let slice: u64 = <u64 as Model>::gen(r); X155 { reader, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.reader.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct X156(#[speedy(varint)] pub u64);
impl Model for X156 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); X156(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct X157(#[speedy(varint)] pub u64);
impl Model for X157 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); X157(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E158 { #[speedy(tag = 193)] V0, #[speedy(tag = 94)] V1(Vec<Option<u16>>, u128) }
impl Model for E158 {
    fn schema() -> String { enum_schema("varint", false, &[(193, vec![]), (94, vec![fieldx(<Vec<Option<u16>> as Model>::schema(), false, false, &[]), fieldx(<u128 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E158::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E158::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => {  E158::V0 } 1 => { let t0: Vec<Option<u16>> = <Vec<Option<u16>> as Model>::gen(r); let t1: u128 = <u128 as Model>::gen(r); E158::V1(t0, t1) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E158::V0 => {  } E158::V1(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E159 { V0 }
impl Model for E159 {
    fn schema() -> String { enum_schema("varint", false, &[(0, vec![])]) }
    fn val(&self, o: &mut String) { match self { E159::V0 => { o.push_str("[1,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => {  E159::V0 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E159::V0 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u7, peek_tag)] pub enum E160<'a> { V0(u8, i32, S23<'a>) }
impl Model for E160<'static> {
    fn schema() -> String { enum_schema("u7", true, &[(0, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<i32 as Model>::schema(), false, false, &[]), fieldx(<S23<'static> as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E160::V0(f_0, f_1, f_2) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let t0: u8 = (0u64 as u8); let t1: i32 = <i32 as Model>::gen(r); let t2: S23<'static> = <S23<'static> as Model>::gen(r); E160::V0(t0, t1, t2) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E160::V0(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u8)] pub enum E161 { #[speedy(tag = 8)] V0(u8), V1 { kind: u8 }, V2(i8, [Vec<u64>; 3], Option<u8>), #[speedy(tag = 1)] V3(u8, Box<bool>, Box<E87>), V4(i8, [i16; 3], (i8, Box<i64>,)), #[speedy(tag = 176)] V5(u8, BTreeMap<String, i32>, u32) }
impl Model for E161 {
    fn schema() -> String { enum_schema("u8", true, &[(8, vec![fieldx(<u8 as Model>::schema(), false, false, &[])]), (9, vec![fieldx(<u8 as Model>::schema(), false, false, &[])]), (10, vec![fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<[Vec<u64>; 3] as Model>::schema(), false, false, &[]), fieldx(<Option<u8> as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<Box<bool> as Model>::schema(), false, false, &[]), fieldx(<Box<E87> as Model>::schema(), false, false, &[])]), (2, vec![fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<[i16; 3] as Model>::schema(), false, false, &[]), fieldx(<(i8, Box<i64>,) as Model>::schema(), false, false, &[])]), (176, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<BTreeMap<String, i32> as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E161::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E161::V1 { kind: f_0 } => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E161::V2(f_0, f_1, f_2) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E161::V3(f_0, f_1, f_2) => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E161::V4(f_0, f_1, f_2) => { o.push_str("[5,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E161::V5(f_0, f_1, f_2) => { o.push_str("[6,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let t0: u8 = (8u64 as u8); E161::V0(t0) } 1 => { let kind: u8 = (9u64 as u8); E161::V1 { kind } } 2 => { let t0: i8 = (10u64 as i8); let t1: [Vec<u64>; 3] = <[Vec<u64>; 3] as Model>::gen(r); let t2: Option<u8> = <Option<u8> as Model>::gen(r); E161::V2(t0, t1, t2) } 3 => { let t0: u8 = (1u64 as u8); let t1: Box<bool> = <Box<bool> as Model>::gen(r); let t2: Box<E87> = <Box<E87> as Model>::gen(r); E161::V3(t0, t1, t2) } 4 => { let t0: i8 = (2u64 as i8); let t1: [i16; 3] = <[i16; 3] as Model>::gen(r); let t2: (i8, Box<i64>,) = <(i8, Box<i64>,) as Model>::gen(r); E161::V4(t0, t1, t2) } 5 => { let t0: u8 = (176u64 as u8); let t1: BTreeMap<String, i32> = <BTreeMap<String, i32> as Model>::gen(r); let t2: u32 = <u32 as Model>::gen(r); E161::V5(t0, t1, t2) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E161::V0(f_0) => { f_0.borrows(f); } E161::V1 { kind: f_0 } => { f_0.borrows(f); } E161::V2(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E161::V3(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E161::V4(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E161::V5(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16, peek_tag)] pub enum E162 { #[speedy(tag = 65533)] V0(u16), V1 { t0: u16 }, V2, #[speedy(tag = 45911)] V3 }
impl Model for E162 {
    fn schema() -> String { enum_schema("u16", true, &[(65533, vec![fieldx(<u16 as Model>::schema(), false, false, &[])]), (65534, vec![fieldx(<u16 as Model>::schema(), false, false, &[])]), (65535, vec![]), (45911, vec![])]) }
    fn val(&self, o: &mut String) { match self { E162::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E162::V1 { t0: f_0 } => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E162::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E162::V3 => { o.push_str("[4,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => { let t0: u16 = (65533u64 as u16); E162::V0(t0) } 1 => { let t0: u16 = (65534u64 as u16); E162::V1 { t0 } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E162::V0(f_0) => { f_0.borrows(f); } E162::V1 { t0: f_0 } => { f_0.borrows(f); } E162::V2 => {  } E162::V3 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16, peek_tag)] pub enum E163 { V0(u16, String, Option<()>), V1 { key: u16 }, V2(u16, char), V3(u16, Vec<Option<NonZeroU32>>, Option<E87>), #[speedy(tag = 4)] V4 { tag: u16 }, #[speedy(tag = 55)] V5 { b: u16, data: Vec<i32> } }
impl Model for E163 {
    fn schema() -> String { enum_schema("u16", true, &[(0, vec![fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<Option<()> as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<u16 as Model>::schema(), false, false, &[])]), (2, vec![fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<char as Model>::schema(), false, false, &[])]), (3, vec![fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<Vec<Option<NonZeroU32>> as Model>::schema(), false, false, &[]), fieldx(<Option<E87> as Model>::schema(), false, false, &[])]), (4, vec![fieldx(<u16 as Model>::schema(), false, false, &[])]), (55, vec![fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<Vec<i32> as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E163::V0(f_0, f_1, f_2) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E163::V1 { key: f_0 } => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E163::V2(f_0, f_1) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E163::V3(f_0, f_1, f_2) => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E163::V4 { tag: f_0 } => { o.push_str("[5,["); f_0.val(o); o.push_str("]]"); } E163::V5 { b: f_0, data: f_1 } => { o.push_str("[6,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let t0: u16 = (0u64 as u16); let t1: String = <String as Model>::gen(r); let t2: Option<()> = <Option<()> as Model>::gen(r); E163::V0(t0, t1, t2) } 1 => { let key: u16 = (1u64 as u16); E163::V1 { key } } 2 => { let t0: u16 = (2u64 as u16); let t1: char = <char as Model>::gen(r); E163::V2(t0, t1) } 3 => { let t0: u16 = (3u64 as u16); let t1: Vec<Option<NonZeroU32>> = <Vec<Option<NonZeroU32>> as Model>::gen(r); let t2: Option<E87> = <Option<E87> as Model>::gen(r); E163::V3(t0, t1, t2) } 4 => { let tag: u16 = (4u64 as u16); E163::V4 { tag } } 5 => { let b: u16 = (55u64 as u16); let data: Vec<i32> = <Vec<i32> as Model>::gen(r); E163::V5 { b, data } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E163::V0(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E163::V1 { key: f_0 } => { f_0.borrows(f); } E163::V2(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E163::V3(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E163::V4 { tag: f_0 } => { f_0.borrows(f); } E163::V5 { b: f_0, data: f_1 } => { f_0.borrows(f); f_1.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u32, peek_tag)] pub enum E164 { #[speedy(tag = 32)] V0 { length: u32, kind: BTreeSet<i16> }, V1 { x: u32 } }
impl Model for E164 {
    fn schema() -> String { enum_schema("u32", true, &[(32, vec![fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<BTreeSet<i16> as Model>::schema(), false, false, &[])]), (33, vec![fieldx(<u32 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E164::V0 { length: f_0, kind: f_1 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E164::V1 { x: f_0 } => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => { let length: u32 = (32u64 as u32); let kind: BTreeSet<i16> = <BTreeSet<i16> as Model>::gen(r); E164::V0 { length, kind } } 1 => { let x: u32 = (33u64 as u32); E164::V1 { x } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E164::V0 { length: f_0, kind: f_1 } => { f_0.borrows(f); f_1.borrows(f); } E164::V1 { x: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u32, peek_tag)] pub enum E165 { #[speedy(tag = 0)] V0(u32), V1(u32), V2 { value: u32 }, V3(u32) }
impl Model for E165 {
    fn schema() -> String { enum_schema("u32", true, &[(0, vec![fieldx(<u32 as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<u32 as Model>::schema(), false, false, &[])]), (2, vec![fieldx(<u32 as Model>::schema(), false, false, &[])]), (3, vec![fieldx(<u32 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E165::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E165::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E165::V2 { value: f_0 } => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E165::V3(f_0) => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let t0: u32 = (0u64 as u32); E165::V0(t0) } 1 => { let t0: u32 = (1u64 as u32); E165::V1(t0) } 2 => { let value: u32 = (2u64 as u32); E165::V2 { value } } 3 => { let t0: u32 = (3u64 as u32); E165::V3(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E165::V0(f_0) => { f_0.borrows(f); } E165::V1(f_0) => { f_0.borrows(f); } E165::V2 { value: f_0 } => { f_0.borrows(f); } E165::V3(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64, peek_tag)] pub enum E166<'a> { V0(u64, HashSet<u64>), #[speedy(tag = 2097152)] V1(u64, Cow<'a, [i128]>, [BTreeMap<u32, IpAddr>; 5]), V2(u64, Vec<BTreeMap<u64, f64>>, u8) }
impl Model for E166<'static> {
    fn schema() -> String { enum_schema("u64", true, &[(0, vec![fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<HashSet<u64> as Model>::schema(), false, false, &[])]), (2097152, vec![fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, [i128]> as Model>::schema(), false, false, &[]), fieldx(<[BTreeMap<u32, IpAddr>; 5] as Model>::schema(), false, false, &[])]), (2097153, vec![fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<Vec<BTreeMap<u64, f64>> as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E166::V0(f_0, f_1) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E166::V1(f_0, f_1, f_2) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E166::V2(f_0, f_1, f_2) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let t0: u64 = (0u64 as u64); let t1: HashSet<u64> = <HashSet<u64> as Model>::gen(r); E166::V0(t0, t1) } 1 => { let t0: u64 = (2097152u64 as u64); let t1: Cow<'static, [i128]> = <Cow<'static, [i128]> as Model>::gen(r); let t2: [BTreeMap<u32, IpAddr>; 5] = <[BTreeMap<u32, IpAddr>; 5] as Model>::gen(r); E166::V1(t0, t1, t2) } 2 => { let t0: u64 = (2097153u64 as u64); let t1: Vec<BTreeMap<u64, f64>> = <Vec<BTreeMap<u64, f64>> as Model>::gen(r); let t2: u8 = <u8 as Model>::gen(r); E166::V2(t0, t1, t2) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E166::V0(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E166::V1(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E166::V2(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint, peek_tag)] pub enum E167 { V0(#[speedy(varint)] u64) }
impl Model for E167 {
    fn schema() -> String { enum_schema("varint", true, &[(0, vec![fieldx(varint_schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E167::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let t0: u64 = (0u64 as u64); E167::V0(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E167::V0(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u32, peek_tag)] pub enum E168 { #[speedy(tag = 268435456)] V0(u32, Box<(u16, f32, char,)>), #[speedy(tag = 4294967294)] V1(u32), V2 { bytes: u32, tag: HashSet<u16> }, #[speedy(tag = 3)] V3 { size: u32, kind: [char; 0] }, V4 { out: u32 }, V5 }
impl Model for E168 {
    fn schema() -> String { enum_schema("u32", true, &[(268435456, vec![fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<Box<(u16, f32, char,)> as Model>::schema(), false, false, &[])]), (4294967294, vec![fieldx(<u32 as Model>::schema(), false, false, &[])]), (4294967295, vec![fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<HashSet<u16> as Model>::schema(), false, false, &[])]), (3, vec![fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<[char; 0] as Model>::schema(), false, false, &[])]), (4, vec![fieldx(<u32 as Model>::schema(), false, false, &[])]), (5, vec![])]) }
    fn val(&self, o: &mut String) { match self { E168::V0(f_0, f_1) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E168::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E168::V2 { bytes: f_0, tag: f_1 } => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E168::V3 { size: f_0, kind: f_1 } => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E168::V4 { out: f_0 } => { o.push_str("[5,["); f_0.val(o); o.push_str("]]"); } E168::V5 => { o.push_str("[6,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(5) { 0 => { let t0: u32 = (268435456u64 as u32); let t1: Box<(u16, f32, char,)> = <Box<(u16, f32, char,)> as Model>::gen(r); E168::V0(t0, t1) } 1 => { let t0: u32 = (4294967294u64 as u32); E168::V1(t0) } 2 => { let bytes: u32 = (4294967295u64 as u32); let tag: HashSet<u16> = <HashSet<u16> as Model>::gen(r); E168::V2 { bytes, tag } } 3 => { let size: u32 = (3u64 as u32); let kind: [char; 0] = <[char; 0] as Model>::gen(r); E168::V3 { size, kind } } 4 => { let out: u32 = (4u64 as u32); E168::V4 { out } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E168::V0(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E168::V1(f_0) => { f_0.borrows(f); } E168::V2 { bytes: f_0, tag: f_1 } => { f_0.borrows(f); f_1.borrows(f); } E168::V3 { size: f_0, kind: f_1 } => { f_0.borrows(f); f_1.borrows(f); } E168::V4 { out: f_0 } => { f_0.borrows(f); } E168::V5 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u64_varint)] pub enum E169 { V0 { #[speedy(varint)] a: u64, name: u128 }, #[speedy(tag = 11676016247357425718)] V1(#[speedy(varint)] u64), #[speedy(tag = 4044040)] V2(#[speedy(varint)] u64, Vec<String>, HashSet<bool>) }
impl Model for E169 {
    fn schema() -> String { enum_schema("varint", true, &[(0, vec![fieldx(varint_schema(), false, false, &[]), fieldx(<u128 as Model>::schema(), false, false, &[])]), (11676016247357425718, vec![fieldx(varint_schema(), false, false, &[])]), (4044040, vec![fieldx(varint_schema(), false, false, &[]), fieldx(<Vec<String> as Model>::schema(), false, false, &[]), fieldx(<HashSet<bool> as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E169::V0 { a: f_0, name: f_1 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E169::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E169::V2(f_0, f_1, f_2) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let a: u64 = (0u64 as u64); let name: u128 = <u128 as Model>::gen(r); E169::V0 { a, name } } 1 => { let t0: u64 = (11676016247357425718u64 as u64); E169::V1(t0) } 2 => { let t0: u64 = (4044040u64 as u64); let t1: Vec<String> = <Vec<String> as Model>::gen(r); let t2: HashSet<bool> = <HashSet<bool> as Model>::gen(r); E169::V2(t0, t1, t2) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E169::V0 { a: f_0, name: f_1 } => { f_0.borrows(f); f_1.borrows(f); } E169::V1(f_0) => { f_0.borrows(f); } E169::V2(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G170<T>(pub Vec<Option<T>>, pub T);
impl<T: Model + Clone + 'static> Model for G170<T> {
    fn schema() -> String { struct_schema(&[fieldx(<Vec<Option<T>> as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<Option<T>> = <Vec<Option<T>> as Model>::gen(r); let t1: T = <T as Model>::gen(r); G170(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G171<T, U> { pub out: Result<U, u16>, pub size: U, #[speedy(constant_prefix = '\u{20ac}')] pub value: T }
impl<T: Model + Clone + 'static, U: Model + Clone + 'static> Model for G171<T, U> {
    fn schema() -> String { struct_schema(&[fieldx(<Result<U, u16> as Model>::schema(), false, false, &[]), fieldx(<U as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[226, 130, 172])]) }
    fn val(&self, o: &mut String) { o.push('['); self.out.val(o); o.push(','); self.size.val(o); o.push(','); self.value.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: Result<U, u16> = <Result<U, u16> as Model>::gen(r); let size: U = <U as Model>::gen(r); let value: T = <T as Model>::gen(r); G171 { out, size, value } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.out.borrows(f); self.size.borrows(f); self.value.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u7)] pub enum H172<T> { V0 { bytes: bool, t0: T }, V1 { rest: Vec<T> }, V2 { size: Result<T, u16> }, Z }
impl<T: Model + Clone + 'static> Model for H172<T> {
    fn schema() -> String { enum_schema("u7", false, &[(0, vec![fieldx(<bool as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<Vec<T> as Model>::schema(), false, false, &[])]), (2, vec![fieldx(<Result<T, u16> as Model>::schema(), false, false, &[])]), (3, vec![])]) }
    fn val(&self, o: &mut String) { match self { H172::V0 { bytes: f_0, t0: f_1 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } H172::V1 { rest: f_0 } => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } H172::V2 { size: f_0 } => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } H172::Z => { o.push_str("[4,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let bytes: bool = <bool as Model>::gen(r); let t0: T = <T as Model>::gen(r); H172::V0 { bytes, t0 } } 1 => { let rest: Vec<T> = <Vec<T> as Model>::gen(r); H172::V1 { rest } } 2 => { let size: Result<T, u16> = <Result<T, u16> as Model>::gen(r); H172::V2 { size } } 3 => {  H172::Z } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { H172::V0 { bytes: f_0, t0: f_1 } => { f_0.borrows(f); f_1.borrows(f); } H172::V1 { rest: f_0 } => { f_0.borrows(f); } H172::V2 { size: f_0 } => { f_0.borrows(f); } H172::Z => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct G173<T>(pub u32, pub u16, pub T);
impl<T: Model + Clone + 'static> Model for G173<T> {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = <u32 as Model>::gen(r); let t1: u16 = <u16 as Model>::gen(r); let t2: T = <T as Model>::gen(r); G173(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct G174<T, U>(pub [U; 2], pub u16, pub T);
impl<T: Model + Clone + 'static, U: Model + Clone + 'static> Model for G174<T, U> {
    fn schema() -> String { struct_schema(&[fieldx(<[U; 2] as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: [U; 2] = <[U; 2] as Model>::gen(r); let t1: u16 = <u16 as Model>::gen(r); let t2: T = <T as Model>::gen(r); G174(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(transparent)] pub struct G175<T>(pub T);
impl<T: Model + Clone + 'static> Model for G175<T> {
    fn schema() -> String { struct_schema(&[fieldx(T::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { G175(T::gen(r)) }
}
#[derive(Clone, Readable, Writable)] pub struct G176<T, U> { pub t0: U, pub key: U, pub result: T }
impl<T: Model + Clone + 'static, U: Model + Clone + 'static> Model for G176<T, U> {
    fn schema() -> String { struct_schema(&[fieldx(<U as Model>::schema(), false, false, &[]), fieldx(<U as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.t0.val(o); o.push(','); self.key.val(o); o.push(','); self.result.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: U = <U as Model>::gen(r); let key: U = <U as Model>::gen(r); let result: T = <T as Model>::gen(r); G176 { t0, key, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t0.borrows(f); self.key.borrows(f); self.result.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G177<T> { pub value: [T; 2], pub t1: u16, pub y: T }
impl<T: Model + Clone + 'static> Model for G177<T> {
    fn schema() -> String { struct_schema(&[fieldx(<[T; 2] as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.value.val(o); o.push(','); self.t1.val(o); o.push(','); self.y.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let value: [T; 2] = <[T; 2] as Model>::gen(r); let t1: u16 = <u16 as Model>::gen(r); let y: T = <T as Model>::gen(r); G177 { value, t1, y } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.value.borrows(f); self.t1.borrows(f); self.y.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct R178 { pub n: u8, pub kids: Vec<R179>, pub end: u16 }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum R179 { One(Box<R178>), Two { a: Option<Box<R179>>, b: u8 }, Leaf(u32) }
impl Model for R178 {
    fn schema() -> String { deeper(|d| if d > 5 { any_schema() } else { struct_schema(&[field(u8::schema()), field(<Vec<R179> as Model>::schema()), field(u16::schema())]) }) }
    fn val(&self, o: &mut String) { o.push('['); self.n.val(o); o.push(','); self.kids.val(o); o.push(','); self.end.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|d| R178 { n: u8::gen(r), kids: if d >= 3 { vec![] } else { Model::gen(r) }, end: u16::gen(r) }) }
}
impl Model for R179 {
    fn schema() -> String { deeper(|d| if d > 5 { any_schema() } else { enum_schema("u8", false, &[(0, vec![field(<R178 as Model>::schema())]), (1, vec![field(<Option<Box<R179>> as Model>::schema()), field(u8::schema())]), (2, vec![field(u32::schema())])]) }) }
    fn val(&self, o: &mut String) { match self { R179::One(x) => { o.push_str("[1,["); x.val(o); } R179::Two { a, b } => { o.push_str("[2,["); a.val(o); o.push(','); b.val(o); } R179::Leaf(x) => { o.push_str("[3,["); x.val(o); } } o.push_str("]]"); }
    fn gen(r: &mut Rng) -> Self { deeper(|d| match if d >= 4 { 2 } else { r.below(3) } { 0 => R179::One(Model::gen(r)), 1 => R179::Two { a: if d >= 3 { None } else { Model::gen(r) }, b: u8::gen(r) }, _ => R179::Leaf(u32::gen(r)) }) }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct Vz {}
impl Model for Vz { fn schema() -> String { struct_schema(&[]) } fn val(&self, o: &mut String) { o.push_str("[]") } fn gen(_: &mut Rng) -> Self { Vz {} } fn borrows(&self, _: &mut dyn FnMut(Borrow)) {} }
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct V180 { pub x: u16, pub rest: u8 }
impl Model for V180 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); ({self.x}).val(o); o.push(','); ({self.rest}).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let x: u16 = <u16 as Model>::gen(r); let rest: u8 = <u8 as Model>::gen(r); V180 { x, rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct V181(pub i8, pub i8);
impl Model for V181 {
    fn schema() -> String { struct_schema(&[fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); ({self.0}).val(o); o.push(','); ({self.1}).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: i8 = <i8 as Model>::gen(r); let t1: i8 = <i8 as Model>::gen(r); V181(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(transparent)] pub struct V182(pub u32);
impl Model for V182 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = <u32 as Model>::gen(r); V182(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct V183 { pub length: u64, pub slice: u32, pub tag: u16 }
impl Model for V183 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); ({self.length}).val(o); o.push(','); ({self.slice}).val(o); o.push(','); ({self.tag}).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: u64 = <u64 as Model>::gen(r); let slice: u32 = <u32 as Model>::gen(r); let tag: u16 = <u16 as Model>::gen(r); V183 { length, slice, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V184<'a>(pub u8, #[speedy(length = t0)] pub &'a [u16]);
impl Model for V184<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static [u16] as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"f\",\"i\":1},\"nm\":\"t1\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = (r.below(24) as u8); let t1: &'static [u16] = { let n = (t0) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <&'static [u16] as GenN>::gen_n(r, n) }; V184(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V185<'a> { pub result: u64, #[speedy(length_type = u32)] pub a: &'a [f64] }
impl Model for V185<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static [f64] as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.result).val(o); o.push(','); (self.a).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: u64 = <u64 as Model>::gen(r); let a: &'static [f64] = { gen_upto::<&'static [f64]>(r, "u32") }; V185 { result, a } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.result.borrows(f); self.a.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V186<'a> { pub error: u32, pub length: u8, #[speedy(length = ..)] pub out: &'a [u32] }
impl Model for V186<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static [u32] as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.error).val(o); o.push(','); (self.length).val(o); o.push(','); (self.out).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let error: u32 = <u32 as Model>::gen(r); let length: u8 = <u8 as Model>::gen(r); let out: &'static [u32] = <&'static [u32] as Model>::gen(r); V186 { error, length, out } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.error.borrows(f); self.length.borrows(f); self.out.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V187<'a> { pub out: u8, #[speedy(length = ..)] pub reader: &'a [Vz] }
impl Model for V187<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static [Vz] as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.out).val(o); o.push(','); (self.reader).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: u8 = <u8 as Model>::gen(r); let reader: &'static [Vz] = &[]; V187 { out, reader } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.out.borrows(f); self.reader.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub enum E188<'a> { A(#[speedy(length_type = u8)] &'a [V181]), B { n: u8, #[speedy(length = n / 2)] v: &'a [V180] }, C(u16) }
impl Model for E188<'static> {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(with_lt(<&'static [V181] as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]), (1, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static [V180] as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"div\",\"a\":{\"x\":\"f\",\"i\":1},\"b\":{\"x\":\"n\",\"n\":2}},\"nm\":\"v\"}"), false, false, &[])]), (2, vec![fieldx(<u16 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E188::A(v) => { o.push_str("[1,["); v.val(o); o.push_str("]]"); } E188::B { n, v } => { o.push_str("[2,["); n.val(o); o.push(','); v.val(o); o.push_str("]]"); } E188::C(x) => { o.push_str("[3,["); x.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => E188::A(gen_upto(r, "u8")), 1 => { let n = r.below(24) as u8; let k = (n / 2) as usize + r.chance(1, 14) as usize; E188::B { n, v: GenN::gen_n(r, k) } } _ => E188::C(Model::gen(r)) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E188::A(v) => v.borrows(f), E188::B { v, .. } => v.borrows(f), _ => {} } }
}
pub fn register(v: &mut Vec<TypeOps>) {
    reg!(v, "d basic"; S1);
    reg!(v, "d basic"; [S1; 2]);
    reg!(v, "d basic"; S2);
    reg!(v, "d basic"; [S2; 2]);
    reg!(v, "d basic"; S3);
    reg!(v, "d basic"; [S3; 2]);
    reg!(v, "d basic"; E4);
    reg!(v, "d basic"; Vec<E4>);
    reg!(v, "d prim"; S5);
    reg!(v, "d prim"; Box<[S5]>);
    reg!(v, "d prim"; [S5; 3]);
    reg_be!(v, "d prim"; [S5; 2]);
    reg!(v, "d prim"; S6);
    reg!(v, "d prim"; Box<[S6]>);
    reg!(v, "d prim"; (u8, [S6; 2], Vec<S6>));
    reg_le!(v, "d prim"; Vec<S6>);
    reg_le!(v, "d prim"; [S6; 2]);
    reg!(v, "d prim"; S7);
    reg!(v, "d prim"; (u8, [S7; 2], Vec<S7>));
    reg!(v, "d prim"; Vec<[S7; 2]>);
    reg_le!(v, "d prim dref"; &'static [S7]);
    reg_le!(v, "d prim dref"; (u8, &'static [S7]));
    reg!(v, "d prim"; S8);
    reg!(v, "d prim"; Cow<'static, [S8]>);
    reg!(v, "d prim"; [S8; 3]);
    reg!(v, "d prim"; S9);
    reg!(v, "d prim"; Vec<[S9; 2]>);
    reg!(v, "d prim"; (u8, [S9; 2], Vec<S9>));
    reg_le!(v, "d prim dref mref"; &'static [S9]);
    reg!(v, "d prim"; S10);
    reg!(v, "d prim"; [S10; 3]);
    reg!(v, "d prim"; Vec<S10>);
    reg_le!(v, "d prim"; [S10; 2]);
    reg!(v, "d prim"; S11);
    reg!(v, "d prim"; Vec<S11>);
    reg!(v, "d prim"; [S11; 3]);
    reg!(v, "d prim"; S12);
    reg!(v, "d prim"; Box<[S12]>);
    reg!(v, "d prim"; Vec<S12>);
    reg!(v, "d prim"; S13);
    reg!(v, "d prim"; [S13; 3]);
    reg!(v, "d prim"; Vec<S13>);
    reg_le!(v, "d prim"; Vec<S13>);
    reg_be!(v, "d prim"; [S13; 2]);
    reg!(v, "d prim"; Q14);
    reg!(v, "d prim"; Box<[Q14]>);
    reg!(v, "d prim"; Q15);
    reg!(v, "d prim"; Box<[Q15]>);
    reg!(v, "d prim"; Q16);
    reg!(v, "d prim"; Cow<'static, [Q16]>);
    reg!(v, "d prim"; Q17);
    reg!(v, "d prim"; Vec<Q17>);
    reg!(v, "d prim"; S18);
    reg!(v, "d prim"; Vec<S18>);
    reg!(v, "d prim"; [S18; 2]);
    reg!(v, "d prim"; Cow<'static, [S18]>);
    reg_le!(v, "d prim dref mref"; &'static [S18]);
    reg!(v, "d len open"; S19<'static>);
    reg!(v, "d len"; S20);
    reg!(v, "d len open dref"; S21<'static>);
    reg!(v, "d len"; S22);
    reg!(v, "d len"; S23<'static>);
    reg!(v, "d len"; S24<'static>);
    reg!(v, "d len open"; S25<'static>);
    reg!(v, "d len open"; S26);
    reg!(v, "d len"; S27);
    reg!(v, "d len open"; S28);
    reg!(v, "d len open"; S29);
    reg!(v, "d len"; S30<'static>);
    reg!(v, "d len"; S31<'static>);
    reg!(v, "d len"; S32<'static>);
    reg!(v, "d len"; S33);
    reg!(v, "d len"; S34<'static>);
    reg!(v, "d len"; S35<'static>);
    reg!(v, "d len"; S36<'static>);
    reg!(v, "d len"; S37<'static>);
    reg!(v, "d len dref"; S38<'static>);
    reg!(v, "d len"; S39<'static>);
    reg!(v, "d len"; S40);
    reg!(v, "d len"; S41);
    reg!(v, "d len"; S42<'static>);
    reg!(v, "d len"; S43);
    reg!(v, "d len"; S44<'static>);
    reg!(v, "d len"; L45);
    reg!(v, "d len"; L46);
    reg!(v, "d len"; L47);
    reg!(v, "d len"; L48);
    reg!(v, "d len dref"; L49<'static>);
    reg!(v, "d len"; L50);
    reg!(v, "d len"; L51);
    reg!(v, "d len"; L52);
    reg!(v, "d len"; L53<'static>);
    reg!(v, "d len"; L54);
    reg!(v, "d len"; L55);
    reg!(v, "d len"; L56);
    reg!(v, "d len"; L57<'static>);
    reg!(v, "d len"; L58);
    reg!(v, "d len dref"; L59<'static>);
    reg!(v, "d len"; L60);
    reg!(v, "d len"; L61);
    reg!(v, "d len"; L62);
    reg!(v, "d len"; L63<'static>);
    reg!(v, "d len dref"; L64<'static>);
    reg!(v, "d len"; L65);
    reg!(v, "d len"; L66);
    reg!(v, "d len"; L67);
    reg!(v, "d len dref"; L68<'static>);
    reg!(v, "d len"; L69);
    reg!(v, "d len"; L70);
    reg!(v, "d len"; L71);
    reg!(v, "d len"; L72);
    reg!(v, "d len"; L73<'static>);
    reg!(v, "d len dref"; L74<'static>);
    reg!(v, "d len"; L75);
    reg!(v, "d enum"; E76);
    reg!(v, "d enum"; E77);
    reg!(v, "d enum"; E78);
    reg!(v, "d enum"; E79);
    reg!(v, "d enum"; E80<'static>);
    reg!(v, "d enum"; E81);
    reg!(v, "d enum"; E82<'static>);
    reg!(v, "d enum"; E83);
    reg!(v, "d enum"; E84<'static>);
    reg!(v, "d enum"; E85);
    reg!(v, "d enum"; E86);
    reg!(v, "d enum"; E87);
    reg!(v, "d enum"; E88);
    reg!(v, "d enum"; E89);
    reg!(v, "d attr"; S90);
    reg!(v, "d attr"; S91);
    reg!(v, "d attr"; S92);
    reg!(v, "d attr open"; S93);
    reg!(v, "d attr open"; S94<'static>);
    reg!(v, "d attr"; S95);
    reg!(v, "d attr"; E96);
    reg!(v, "d attr open"; K97);
    reg!(v, "d attr"; K98);
    reg!(v, "d attr"; Cow<'static, [K98]>);
    reg!(v, "d attr"; [K98; 3]);
    reg!(v, "d attr"; K99);
    reg!(v, "d attr"; Vec<K99>);
    reg!(v, "d attr"; Box<[K99]>);
    reg!(v, "d attr"; K100);
    reg!(v, "d attr"; [K100; 3]);
    reg!(v, "d attr"; Vec<K100>);
    reg!(v, "d attr open"; K101);
    reg!(v, "d attr"; K102);
    reg!(v, "d attr"; Cow<'static, [K102]>);
    reg!(v, "d attr"; [K102; 3]);
    reg!(v, "d attr"; K103);
    reg!(v, "d attr"; (u8, [K103; 2]));
    reg!(v, "d attr"; Box<[K103]>);
    reg!(v, "d attr"; K104);
    reg!(v, "d attr"; Vec<K104>);
    reg!(v, "d attr"; Cow<'static, [K104]>);
    reg!(v, "d attr open"; K105);
    reg!(v, "d attr"; K106);
    reg!(v, "d attr"; [K106; 3]);
    reg!(v, "d attr"; Box<[K106]>);
    reg!(v, "d attr open"; K107);
    reg!(v, "d attr"; K108);
    reg!(v, "d attr"; Cow<'static, [K108]>);
    reg!(v, "d attr"; Box<[K108]>);
    reg!(v, "d attr"; K109);
    reg!(v, "d attr"; [K109; 3]);
    reg!(v, "d attr"; (u8, [K109; 2]));
    reg!(v, "d attr open"; K110);
    reg!(v, "d attr"; K111);
    reg!(v, "d attr"; (u8, [K111; 2]));
    reg!(v, "d attr"; [K111; 3]);
    reg!(v, "d attr"; K112);
    reg!(v, "d attr"; [K112; 3]);
    reg!(v, "d attr"; (u8, [K112; 2]));
    reg!(v, "d attr"; K113);
    reg!(v, "d attr"; [K113; 3]);
    reg!(v, "d attr"; Box<[K113]>);
    reg!(v, "d attr open"; K114);
    reg!(v, "d attr"; K115);
    reg!(v, "d attr"; [K115; 3]);
    reg!(v, "d attr"; Cow<'static, [K115]>);
    reg!(v, "d attr"; K116);
    reg!(v, "d attr"; Cow<'static, [K116]>);
    reg!(v, "d attr"; (u8, [K116; 2]));
    reg!(v, "d attr open"; K117);
    reg!(v, "d attr"; K118);
    reg!(v, "d attr"; Vec<K118>);
    reg!(v, "d attr"; (u8, [K118; 2]));
    reg!(v, "d attr"; K119);
    reg!(v, "d attr"; Vec<K119>);
    reg!(v, "d attr"; [K119; 3]);
    reg!(v, "d attr"; P120);
    reg!(v, "d attr"; P121);
    reg!(v, "d attr"; P122);
    reg!(v, "d attr"; P123);
    reg!(v, "d attr"; P124);
    reg!(v, "d attr"; P125);
    reg!(v, "d attr"; P126);
    reg!(v, "d attr"; P127);
    reg!(v, "d attr"; P128);
    reg!(v, "d attr"; P129);
    reg!(v, "d attr"; P130);
    reg!(v, "d attr"; P131);
    reg!(v, "d attr open"; D132);
    reg!(v, "d attr open"; D133);
    reg!(v, "d attr open"; D134);
    reg!(v, "d attr open"; D135);
    reg!(v, "d attr open"; D136);
    reg!(v, "d attr open"; D137);
    reg!(v, "d attr open"; D138);
    reg!(v, "d attr open"; D139);
    reg!(v, "d attr open"; D140);
    reg!(v, "d attr open"; D141);
    reg!(v, "d attr open"; D142);
    reg!(v, "d attr open"; D143);
    reg!(v, "d attr open"; D144);
    reg!(v, "d attr open"; D145);
    reg!(v, "d attr open"; D146<'static>);
    reg!(v, "d attr open"; D147<'static>);
    reg!(v, "d attr open"; D148<'static>);
    reg!(v, "d attr open"; D149);
    reg!(v, "d attr open"; D150);
    reg!(v, "d varint"; S151);
    reg!(v, "d varint"; Vec<S151>);
    reg!(v, "d varint"; X152);
    reg!(v, "d varint"; X153);
    reg!(v, "d varint"; X154);
    reg!(v, "d varint"; X155);
    reg!(v, "d varint"; X156);
    reg!(v, "d varint"; Vec<X156>);
    reg!(v, "d varint"; [X156; 2]);
    reg!(v, "d varint"; X157);
    reg!(v, "d varint"; Vec<X157>);
    reg!(v, "d varint"; [X157; 2]);
    reg!(v, "d varint"; E158);
    reg!(v, "d varint"; E159);
    reg!(v, "d enum peek"; E160<'static>);
    reg!(v, "d enum peek"; Option<E160<'static>>);
    reg!(v, "d enum peek"; BTreeMap<u8, E160<'static>>);
    reg!(v, "d enum peek"; E161);
    reg!(v, "d enum peek"; (u8, E161, u16));
    reg!(v, "d enum peek"; Option<E161>);
    reg!(v, "d enum peek"; E162);
    reg!(v, "d enum peek"; Box<E162>);
    reg!(v, "d enum peek"; (u8, E162, u16));
    reg!(v, "d enum peek"; E163);
    reg!(v, "d enum peek"; E164);
    reg!(v, "d enum peek"; [E164; 3]);
    reg!(v, "d enum peek"; (u8, E164, u16));
    reg!(v, "d enum peek"; E165);
    reg!(v, "d enum peek"; E166<'static>);
    reg!(v, "d enum peek"; BTreeMap<u8, E166<'static>>);
    reg!(v, "d enum peek"; Vec<E166<'static>>);
    reg!(v, "d enum peek"; E167);
    reg!(v, "d enum peek"; Box<E167>);
    reg!(v, "d enum peek"; [E167; 3]);
    reg!(v, "d enum peek"; E168);
    reg!(v, "d enum peek"; E169);
    reg!(v, "d generic"; BTreeMap<u8, G170<u32>>);
    reg!(v, "d generic"; Option<G170<[u8; 3]>>);
    reg!(v, "d generic"; G170<()>);
    reg!(v, "d generic"; Vec<G171<bool, f32>>);
    reg!(v, "d generic"; G171<u64, u64>);
    reg!(v, "d generic"; H172<Option<u8>>);
    reg!(v, "d generic"; H172<char>);
    reg!(v, "d generic prim"; G173<u32>);
    reg!(v, "d generic prim"; Option<G173<u32>>);
    reg!(v, "d generic prim"; G173<[u16; 2]>);
    reg!(v, "d generic prim"; G174<char, bool>);
    reg!(v, "d generic prim"; G174<i16, i16>);
    reg!(v, "d generic prim"; BTreeMap<u8, G174<u32, [u16; 2]>>);
    reg!(v, "d generic prim"; [G175<String>; 3]);
    reg!(v, "d generic prim"; Cow<'static, [G175<u32>]>);
    reg!(v, "d generic prim"; Cow<'static, [G175<[u16; 2]>]>);
    reg!(v, "d generic prim"; [G175<u8>; 3]);
    reg!(v, "d generic prim"; Box<[G175<u16>]>);
    reg!(v, "d generic prim"; G176<[u16; 2], u16>);
    reg!(v, "d generic prim"; Option<G176<u32, f32>>);
    reg!(v, "d generic prim"; Vec<G177<char>>);
    reg!(v, "d generic prim"; Vec<G177<bool>>);
    reg!(v, "d rec"; R179);
    reg!(v, "d rec"; R178);
    reg!(v, "d view"; V180);
    reg!(v, "d view"; V181);
    reg!(v, "d view"; V182);
    reg!(v, "d view"; V183);
    reg!(v, "d view dref"; V184<'static>);
    reg!(v, "d view dref"; V185<'static>);
    reg!(v, "d view open dref"; V186<'static>);
    reg!(v, "d view open dref"; V187<'static>);
    reg!(v, "d view dref"; E188<'static>);
}
