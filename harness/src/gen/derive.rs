// Made by tools/gen_derive.py. Derived types and their schemas.
use harness::model::*;
use harness::ops::TypeOps;
use harness::util::*;
use harness::{reg, reg_be, reg_le};
use speedy::{Endianness, Readable, Writable};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::net::*;
use std::num::*;
use std::time::{Duration, SystemTime};
use uuid::Uuid;

#[derive(Clone, Readable, Writable)] pub struct S1 { pub kind: [(NonZeroU32,); 3], pub name: (String, Option<NonZeroU8>, u128,), pub t0: HashMap<bool, Option<bool>> }
impl Model for S1 {
    fn schema() -> String { struct_schema(&[fieldx(<[(NonZeroU32,); 3] as Model>::schema(), false, false, &[]), fieldx(<(String, Option<NonZeroU8>, u128,) as Model>::schema(), false, false, &[]), fieldx(<HashMap<bool, Option<bool>> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.kind.val(o); o.push(','); self.name.val(o); o.push(','); self.t0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let kind: [(NonZeroU32,); 3] = <[(NonZeroU32,); 3] as Model>::gen(r); let name: (String, Option<NonZeroU8>, u128,) = <(String, Option<NonZeroU8>, u128,) as Model>::gen(r); let t0: HashMap<bool, Option<bool>> = <HashMap<bool, Option<bool>> as Model>::gen(r); S1 { kind, name, t0 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.kind.borrows(f); self.name.borrows(f); self.t0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S2<'a> { pub y: i128, pub length: Cow<'a, [u32]>, pub t0: bool }
impl Model for S2<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<i128 as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, [u32]> as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.y.val(o); o.push(','); self.length.val(o); o.push(','); self.t0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: i128 = <i128 as Model>::gen(r); let length: Cow<'static, [u32]> = <Cow<'static, [u32]> as Model>::gen(r); let t0: bool = <bool as Model>::gen(r); S2 { y, length, t0 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.y.borrows(f); self.length.borrows(f); self.t0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct S3(pub Option<f64>, pub Vec<Vec<i64>>, pub Option<Endianness>, pub bool, pub char, pub Box<String>);
impl Model for S3 {
    fn schema() -> String { struct_schema(&[fieldx(<Option<f64> as Model>::schema(), false, false, &[]), fieldx(<Vec<Vec<i64>> as Model>::schema(), false, false, &[]), fieldx(<Option<Endianness> as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[]), fieldx(<char as Model>::schema(), false, false, &[]), fieldx(<Box<String> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(','); self.5.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<f64> = <Option<f64> as Model>::gen(r); let t1: Vec<Vec<i64>> = <Vec<Vec<i64>> as Model>::gen(r); let t2: Option<Endianness> = <Option<Endianness> as Model>::gen(r); let t3: bool = <bool as Model>::gen(r); let t4: char = <char as Model>::gen(r); let t5: Box<String> = <Box<String> as Model>::gen(r); S3(t0, t1, t2, t3, t4, t5) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); self.5.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S4;
impl Model for S4 {
    fn schema() -> String { struct_schema(&[]) }
    fn val(&self, o: &mut String) { o.push('[');  o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| {  S4 }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct S5(pub u64, pub HashMap<bool, Vec<f64>>);
impl Model for S5 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<HashMap<bool, Vec<f64>> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let t1: HashMap<bool, Vec<f64>> = <HashMap<bool, Vec<f64>> as Model>::gen(r); S5(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S6;
impl Model for S6 {
    fn schema() -> String { struct_schema(&[]) }
    fn val(&self, o: &mut String) { o.push('[');  o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| {  S6 }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct S7 { pub t1: Vec<String>, pub slice: HashMap<bool, String>, pub rest: i8, pub value: f32 }
impl Model for S7 {
    fn schema() -> String { struct_schema(&[fieldx(<Vec<String> as Model>::schema(), false, false, &[]), fieldx(<HashMap<bool, String> as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<f32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.t1.val(o); o.push(','); self.slice.val(o); o.push(','); self.rest.val(o); o.push(','); self.value.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: Vec<String> = <Vec<String> as Model>::gen(r); let slice: HashMap<bool, String> = <HashMap<bool, String> as Model>::gen(r); let rest: i8 = <i8 as Model>::gen(r); let value: f32 = <f32 as Model>::gen(r); S7 { t1, slice, rest, value } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); self.slice.borrows(f); self.rest.borrows(f); self.value.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S8;
impl Model for S8 {
    fn schema() -> String { struct_schema(&[]) }
    fn val(&self, o: &mut String) { o.push('[');  o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| {  S8 }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct S9<'a> { pub t1: String, pub tag: i64, pub b: u32, pub length: Cow<'a, [bool]>, pub len: u8, pub result: char }
impl Model for S9<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<i64 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, [bool]> as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<char as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.t1.val(o); o.push(','); self.tag.val(o); o.push(','); self.b.val(o); o.push(','); self.length.val(o); o.push(','); self.len.val(o); o.push(','); self.result.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: String = <String as Model>::gen(r); let tag: i64 = <i64 as Model>::gen(r); let b: u32 = <u32 as Model>::gen(r); let length: Cow<'static, [bool]> = <Cow<'static, [bool]> as Model>::gen(r); let len: u8 = <u8 as Model>::gen(r); let result: char = <char as Model>::gen(r); S9 { t1, tag, b, length, len, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); self.tag.borrows(f); self.b.borrows(f); self.length.borrows(f); self.len.borrows(f); self.result.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S10<'a>(pub S7, pub u32, pub Cow<'a, HashSet<u16>>, pub Uuid, pub f64, pub ([u64; 0], char, Uuid,));
impl Model for S10<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<S7 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, HashSet<u16>> as Model>::schema(), false, false, &[]), fieldx(<Uuid as Model>::schema(), false, false, &[]), fieldx(<f64 as Model>::schema(), false, false, &[]), fieldx(<([u64; 0], char, Uuid,) as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(','); self.5.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: S7 = <S7 as Model>::gen(r); let t1: u32 = <u32 as Model>::gen(r); let t2: Cow<'static, HashSet<u16>> = <Cow<'static, HashSet<u16>> as Model>::gen(r); let t3: Uuid = <Uuid as Model>::gen(r); let t4: f64 = <f64 as Model>::gen(r); let t5: ([u64; 0], char, Uuid,) = <([u64; 0], char, Uuid,) as Model>::gen(r); S10(t0, t1, t2, t3, t4, t5) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); self.5.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S11;
impl Model for S11 {
    fn schema() -> String { struct_schema(&[]) }
    fn val(&self, o: &mut String) { o.push('[');  o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| {  S11 }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S12 { pub b: BTreeMap<bool, i8>, pub flags: String, pub x: bool, pub t0: String, pub size: BTreeSet<u8>, pub data: HashMap<char, String> }
impl Model for S12 {
    fn schema() -> String { struct_schema(&[fieldx(<BTreeMap<bool, i8> as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<BTreeSet<u8> as Model>::schema(), false, false, &[]), fieldx(<HashMap<char, String> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.b.val(o); o.push(','); self.flags.val(o); o.push(','); self.x.val(o); o.push(','); self.t0.val(o); o.push(','); self.size.val(o); o.push(','); self.data.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let b: BTreeMap<bool, i8> = <BTreeMap<bool, i8> as Model>::gen(r); let flags: String = <String as Model>::gen(r); let x: bool = <bool as Model>::gen(r); let t0: String = <String as Model>::gen(r); let size: BTreeSet<u8> = <BTreeSet<u8> as Model>::gen(r); let data: HashMap<char, String> = <HashMap<char, String> as Model>::gen(r); S12 { b, flags, x, t0, size, data } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.b.borrows(f); self.flags.borrows(f); self.x.borrows(f); self.t0.borrows(f); self.size.borrows(f); self.data.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S13 { pub id: Vec<u32>, pub count: HashMap<u64, Box<char>>, pub length: i128, pub name: (HashMap<u16, u32>, HashMap<u32, f64>, f32,) }
impl Model for S13 {
    fn schema() -> String { struct_schema(&[fieldx(<Vec<u32> as Model>::schema(), false, false, &[]), fieldx(<HashMap<u64, Box<char>> as Model>::schema(), false, false, &[]), fieldx(<i128 as Model>::schema(), false, false, &[]), fieldx(<(HashMap<u16, u32>, HashMap<u32, f64>, f32,) as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.id.val(o); o.push(','); self.count.val(o); o.push(','); self.length.val(o); o.push(','); self.name.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let id: Vec<u32> = <Vec<u32> as Model>::gen(r); let count: HashMap<u64, Box<char>> = <HashMap<u64, Box<char>> as Model>::gen(r); let length: i128 = <i128 as Model>::gen(r); let name: (HashMap<u16, u32>, HashMap<u32, f64>, f32,) = <(HashMap<u16, u32>, HashMap<u32, f64>, f32,) as Model>::gen(r); S13 { id, count, length, name } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.id.borrows(f); self.count.borrows(f); self.length.borrows(f); self.name.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S14(pub String, pub (bool, i64,), pub NonZeroU32, pub String, pub char, pub S13);
impl Model for S14 {
    fn schema() -> String { struct_schema(&[fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<(bool, i64,) as Model>::schema(), false, false, &[]), fieldx(<NonZeroU32 as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<char as Model>::schema(), false, false, &[]), fieldx(<S13 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(','); self.5.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: String = <String as Model>::gen(r); let t1: (bool, i64,) = <(bool, i64,) as Model>::gen(r); let t2: NonZeroU32 = <NonZeroU32 as Model>::gen(r); let t3: String = <String as Model>::gen(r); let t4: char = <char as Model>::gen(r); let t5: S13 = <S13 as Model>::gen(r); S14(t0, t1, t2, t3, t4, t5) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); self.5.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S15;
impl Model for S15 {
    fn schema() -> String { struct_schema(&[]) }
    fn val(&self, o: &mut String) { o.push('[');  o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| {  S15 }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct S16(pub [u8; 5], pub u16, pub S8);
impl Model for S16 {
    fn schema() -> String { struct_schema(&[fieldx(<[u8; 5] as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<S8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: [u8; 5] = <[u8; 5] as Model>::gen(r); let t1: u16 = <u16 as Model>::gen(r); let t2: S8 = <S8 as Model>::gen(r); S16(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S17<'a> { pub result: u16, pub name: bool, pub length: Vec<u8>, pub count: char, pub tag: Cow<'a, str>, pub data: Vec<Vec<u64>> }
impl Model for S17<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[]), fieldx(<Vec<u8> as Model>::schema(), false, false, &[]), fieldx(<char as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, str> as Model>::schema(), false, false, &[]), fieldx(<Vec<Vec<u64>> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.result.val(o); o.push(','); self.name.val(o); o.push(','); self.length.val(o); o.push(','); self.count.val(o); o.push(','); self.tag.val(o); o.push(','); self.data.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: u16 = <u16 as Model>::gen(r); let name: bool = <bool as Model>::gen(r); let length: Vec<u8> = <Vec<u8> as Model>::gen(r); let count: char = <char as Model>::gen(r); let tag: Cow<'static, str> = <Cow<'static, str> as Model>::gen(r); let data: Vec<Vec<u64>> = <Vec<Vec<u64>> as Model>::gen(r); S17 { result, name, length, count, tag, data } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.result.borrows(f); self.name.borrows(f); self.length.borrows(f); self.count.borrows(f); self.tag.borrows(f); self.data.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S18(pub Option<i64>, pub String, pub i64, pub Vec<Option<u32>>, pub u128, pub [u128; 0]);
impl Model for S18 {
    fn schema() -> String { struct_schema(&[fieldx(<Option<i64> as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<i64 as Model>::schema(), false, false, &[]), fieldx(<Vec<Option<u32>> as Model>::schema(), false, false, &[]), fieldx(<u128 as Model>::schema(), false, false, &[]), fieldx(<[u128; 0] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(','); self.5.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<i64> = <Option<i64> as Model>::gen(r); let t1: String = <String as Model>::gen(r); let t2: i64 = <i64 as Model>::gen(r); let t3: Vec<Option<u32>> = <Vec<Option<u32>> as Model>::gen(r); let t4: u128 = <u128 as Model>::gen(r); let t5: [u128; 0] = <[u128; 0] as Model>::gen(r); S18(t0, t1, t2, t3, t4, t5) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); self.5.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S19;
impl Model for S19 {
    fn schema() -> String { struct_schema(&[]) }
    fn val(&self, o: &mut String) { o.push('[');  o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| {  S19 }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct S20 { pub reader: Ipv6Addr, pub error: NonZeroU32 }
impl Model for S20 {
    fn schema() -> String { struct_schema(&[fieldx(<Ipv6Addr as Model>::schema(), false, false, &[]), fieldx(<NonZeroU32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.reader.val(o); o.push(','); self.error.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let reader: Ipv6Addr = <Ipv6Addr as Model>::gen(r); let error: NonZeroU32 = <NonZeroU32 as Model>::gen(r); S20 { reader, error } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.reader.borrows(f); self.error.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S21;
impl Model for S21 {
    fn schema() -> String { struct_schema(&[]) }
    fn val(&self, o: &mut String) { o.push('[');  o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| {  S21 }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S22(pub u8);
impl Model for S22 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); S22(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S23;
impl Model for S23 {
    fn schema() -> String { struct_schema(&[]) }
    fn val(&self, o: &mut String) { o.push('[');  o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| {  S23 }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S24(pub IpAddr, pub f32);
impl Model for S24 {
    fn schema() -> String { struct_schema(&[fieldx(<IpAddr as Model>::schema(), false, false, &[]), fieldx(<f32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: IpAddr = <IpAddr as Model>::gen(r); let t1: f32 = <f32 as Model>::gen(r); S24(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S25 { pub out: u64, pub rest: Option<f64>, pub key: usize, pub size: i64, pub length: bool, pub slice: bool }
impl Model for S25 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<Option<f64> as Model>::schema(), false, false, &[]), fieldx(<usize as Model>::schema(), false, false, &[]), fieldx(<i64 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.out.val(o); o.push(','); self.rest.val(o); o.push(','); self.key.val(o); o.push(','); self.size.val(o); o.push(','); self.length.val(o); o.push(','); self.slice.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: u64 = <u64 as Model>::gen(r); let rest: Option<f64> = <Option<f64> as Model>::gen(r); let key: usize = <usize as Model>::gen(r); let size: i64 = <i64 as Model>::gen(r); let length: bool = <bool as Model>::gen(r); let slice: bool = <bool as Model>::gen(r); S25 { out, rest, key, size, length, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.out.borrows(f); self.rest.borrows(f); self.key.borrows(f); self.size.borrows(f); self.length.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S26;
impl Model for S26 {
    fn schema() -> String { struct_schema(&[]) }
    fn val(&self, o: &mut String) { o.push('[');  o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| {  S26 }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub enum E27 { V0(String), #[speedy(tag = 3631244540)] V1, #[speedy(tag = 4294967295)] V2, #[speedy(tag = 1)] V3 { size: String, value: String }, V4(S8), #[speedy(tag = 4294967293)] V5 { reader: i64 } }
impl Model for E27 {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(<String as Model>::schema(), false, false, &[])]), (3631244540, vec![]), (4294967295, vec![]), (1, vec![fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[])]), (2, vec![fieldx(<S8 as Model>::schema(), false, false, &[])]), (4294967293, vec![fieldx(<i64 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E27::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E27::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E27::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E27::V3 { size: f_0, value: f_1 } => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E27::V4(f_0) => { o.push_str("[5,["); f_0.val(o); o.push_str("]]"); } E27::V5 { reader: f_0 } => { o.push_str("[6,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let t0: String = <String as Model>::gen(r); E27::V0(t0) } 1 => {  E27::V1 } 2 => {  E27::V2 } 3 => { let size: String = <String as Model>::gen(r); let value: String = <String as Model>::gen(r); E27::V3 { size, value } } 4 => { let t0: S8 = <S8 as Model>::gen(r); E27::V4(t0) } 5 => { let reader: i64 = <i64 as Model>::gen(r); E27::V5 { reader } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E27::V0(f_0) => { f_0.borrows(f); } E27::V1 => {  } E27::V2 => {  } E27::V3 { size: f_0, value: f_1 } => { f_0.borrows(f); f_1.borrows(f); } E27::V4(f_0) => { f_0.borrows(f); } E27::V5 { reader: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E28 { #[speedy(tag = 4)] V0(char), V1(Option<Box<i32>>, i64), V2(u8), V3 { bytes: Option<S23>, rest: [Vec<u32>; 5], error: () }, #[speedy(tag = 0)] V4, #[speedy(tag = 82)] V5 { t1: (Uuid, bool, u8,), tag: String, data: Vec<Box<i16>> } }
impl Model for E28 {
    fn schema() -> String { enum_schema("u8", false, &[(4, vec![fieldx(<char as Model>::schema(), false, false, &[])]), (5, vec![fieldx(<Option<Box<i32>> as Model>::schema(), false, false, &[]), fieldx(<i64 as Model>::schema(), false, false, &[])]), (6, vec![fieldx(<u8 as Model>::schema(), false, false, &[])]), (7, vec![fieldx(<Option<S23> as Model>::schema(), false, false, &[]), fieldx(<[Vec<u32>; 5] as Model>::schema(), false, false, &[]), fieldx(<() as Model>::schema(), false, false, &[])]), (0, vec![]), (82, vec![fieldx(<(Uuid, bool, u8,) as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<Vec<Box<i16>> as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E28::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E28::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E28::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E28::V3 { bytes: f_0, rest: f_1, error: f_2 } => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E28::V4 => { o.push_str("[5,[");  o.push_str("]]"); } E28::V5 { t1: f_0, tag: f_1, data: f_2 } => { o.push_str("[6,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let t0: char = <char as Model>::gen(r); E28::V0(t0) } 1 => { let t0: Option<Box<i32>> = <Option<Box<i32>> as Model>::gen(r); let t1: i64 = <i64 as Model>::gen(r); E28::V1(t0, t1) } 2 => { let t0: u8 = <u8 as Model>::gen(r); E28::V2(t0) } 3 => { let bytes: Option<S23> = <Option<S23> as Model>::gen(r); let rest: [Vec<u32>; 5] = <[Vec<u32>; 5] as Model>::gen(r); let error: () = <() as Model>::gen(r); E28::V3 { bytes, rest, error } } 4 => {  E28::V4 } 5 => { let t1: (Uuid, bool, u8,) = <(Uuid, bool, u8,) as Model>::gen(r); let tag: String = <String as Model>::gen(r); let data: Vec<Box<i16>> = <Vec<Box<i16>> as Model>::gen(r); E28::V5 { t1, tag, data } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E28::V0(f_0) => { f_0.borrows(f); } E28::V1(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E28::V2(f_0) => { f_0.borrows(f); } E28::V3 { bytes: f_0, rest: f_1, error: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E28::V4 => {  } E28::V5 { t1: f_0, tag: f_1, data: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E29 { V0(BTreeSet<String>), #[speedy(tag = 8)] V1, #[speedy(tag = 253)] V2(f32) }
impl Model for E29 {
    fn schema() -> String { enum_schema("u8", false, &[(0, vec![fieldx(<BTreeSet<String> as Model>::schema(), false, false, &[])]), (8, vec![]), (253, vec![fieldx(<f32 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E29::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E29::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E29::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let t0: BTreeSet<String> = <BTreeSet<String> as Model>::gen(r); E29::V0(t0) } 1 => {  E29::V1 } 2 => { let t0: f32 = <f32 as Model>::gen(r); E29::V2(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E29::V0(f_0) => { f_0.borrows(f); } E29::V1 => {  } E29::V2(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16)] pub enum E30 { V0, V1 { flags: u32, slice: HashSet<char>, value: u64 } }
impl Model for E30 {
    fn schema() -> String { enum_schema("u16", false, &[(0, vec![]), (1, vec![fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<HashSet<char> as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E30::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E30::V1 { flags: f_0, slice: f_1, value: f_2 } => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => {  E30::V0 } 1 => { let flags: u32 = <u32 as Model>::gen(r); let slice: HashSet<char> = <HashSet<char> as Model>::gen(r); let value: u64 = <u64 as Model>::gen(r); E30::V1 { flags, slice, value } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E30::V0 => {  } E30::V1 { flags: f_0, slice: f_1, value: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub enum E31 { V0 { out: char, name: Box<Option<i32>>, kind: [char; 0] } }
impl Model for E31 {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(<char as Model>::schema(), false, false, &[]), fieldx(<Box<Option<i32>> as Model>::schema(), false, false, &[]), fieldx(<[char; 0] as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E31::V0 { out: f_0, name: f_1, kind: f_2 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let out: char = <char as Model>::gen(r); let name: Box<Option<i32>> = <Box<Option<i32>> as Model>::gen(r); let kind: [char; 0] = <[char; 0] as Model>::gen(r); E31::V0 { out, name, kind } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E31::V0 { out: f_0, name: f_1, kind: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub enum E32 { #[speedy(tag = 4294967294)] V0(u64), V1 }
impl Model for E32 {
    fn schema() -> String { enum_schema("u32", false, &[(4294967294, vec![fieldx(<u64 as Model>::schema(), false, false, &[])]), (4294967295, vec![])]) }
    fn val(&self, o: &mut String) { match self { E32::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E32::V1 => { o.push_str("[2,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => { let t0: u64 = <u64 as Model>::gen(r); E32::V0(t0) } 1 => {  E32::V1 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E32::V0(f_0) => { f_0.borrows(f); } E32::V1 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub enum E33 { V0 }
impl Model for E33 {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![])]) }
    fn val(&self, o: &mut String) { match self { E33::V0 => { o.push_str("[1,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => {  E33::V0 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E33::V0 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum E34 { V0(HashMap<u8, i16>), #[speedy(tag = 268435456)] V1(String, BTreeMap<u8, Vec<SystemTime>>), V2(i16, (), String), V3, V4(Vec<BTreeMap<u64, bool>>), V5(NonZeroU32) }
impl Model for E34 {
    fn schema() -> String { enum_schema("u64", false, &[(0, vec![fieldx(<HashMap<u8, i16> as Model>::schema(), false, false, &[])]), (268435456, vec![fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<BTreeMap<u8, Vec<SystemTime>> as Model>::schema(), false, false, &[])]), (268435457, vec![fieldx(<i16 as Model>::schema(), false, false, &[]), fieldx(<() as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[])]), (268435458, vec![]), (268435459, vec![fieldx(<Vec<BTreeMap<u64, bool>> as Model>::schema(), false, false, &[])]), (268435460, vec![fieldx(<NonZeroU32 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E34::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E34::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E34::V2(f_0, f_1, f_2) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E34::V3 => { o.push_str("[4,[");  o.push_str("]]"); } E34::V4(f_0) => { o.push_str("[5,["); f_0.val(o); o.push_str("]]"); } E34::V5(f_0) => { o.push_str("[6,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let t0: HashMap<u8, i16> = <HashMap<u8, i16> as Model>::gen(r); E34::V0(t0) } 1 => { let t0: String = <String as Model>::gen(r); let t1: BTreeMap<u8, Vec<SystemTime>> = <BTreeMap<u8, Vec<SystemTime>> as Model>::gen(r); E34::V1(t0, t1) } 2 => { let t0: i16 = <i16 as Model>::gen(r); let t1: () = <() as Model>::gen(r); let t2: String = <String as Model>::gen(r); E34::V2(t0, t1, t2) } 3 => {  E34::V3 } 4 => { let t0: Vec<BTreeMap<u64, bool>> = <Vec<BTreeMap<u64, bool>> as Model>::gen(r); E34::V4(t0) } 5 => { let t0: NonZeroU32 = <NonZeroU32 as Model>::gen(r); E34::V5(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E34::V0(f_0) => { f_0.borrows(f); } E34::V1(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E34::V2(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E34::V3 => {  } E34::V4(f_0) => { f_0.borrows(f); } E34::V5(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct S35 { pub out: f32, pub b: i32, pub value: f32 }
impl Model for S35 {
    fn schema() -> String { struct_schema(&[fieldx(<f32 as Model>::schema(), false, false, &[]), fieldx(<i32 as Model>::schema(), false, false, &[]), fieldx(<f32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.out.val(o); o.push(','); self.b.val(o); o.push(','); self.value.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: f32 = <f32 as Model>::gen(r); let b: i32 = <i32 as Model>::gen(r); let value: f32 = <f32 as Model>::gen(r); S35 { out, b, value } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.out.borrows(f); self.b.borrows(f); self.value.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S36(pub u128);
impl Model for S36 {
    fn schema() -> String { struct_schema(&[fieldx(<u128 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u128 = <u128 as Model>::gen(r); S36(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S37(pub i16, pub i16, pub i16, pub i16);
impl Model for S37 {
    fn schema() -> String { struct_schema(&[fieldx(<i16 as Model>::schema(), false, false, &[]), fieldx(<i16 as Model>::schema(), false, false, &[]), fieldx(<i16 as Model>::schema(), false, false, &[]), fieldx(<i16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: i16 = <i16 as Model>::gen(r); let t1: i16 = <i16 as Model>::gen(r); let t2: i16 = <i16 as Model>::gen(r); let t3: i16 = <i16 as Model>::gen(r); S37(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S38 { pub reader: u16 }
impl Model for S38 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.reader.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let reader: u16 = <u16 as Model>::gen(r); S38 { reader } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.reader.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S39(pub i8, pub u128, pub i16, pub i32);
impl Model for S39 {
    fn schema() -> String { struct_schema(&[fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<u128 as Model>::schema(), false, false, &[]), fieldx(<i16 as Model>::schema(), false, false, &[]), fieldx(<i32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: i8 = <i8 as Model>::gen(r); let t1: u128 = <u128 as Model>::gen(r); let t2: i16 = <i16 as Model>::gen(r); let t3: i32 = <i32 as Model>::gen(r); S39(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S40(pub u64, pub u64, pub u64, pub u64);
impl Model for S40 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let t1: u64 = <u64 as Model>::gen(r); let t2: u64 = <u64 as Model>::gen(r); let t3: u64 = <u64 as Model>::gen(r); S40(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct S41 { pub t1: f64 }
impl Model for S41 {
    fn schema() -> String { struct_schema(&[fieldx(<f64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.t1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: f64 = <f64 as Model>::gen(r); S41 { t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S42(pub u32, pub u32, pub u32, pub u32, pub u32, pub u32);
impl Model for S42 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(','); self.5.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = <u32 as Model>::gen(r); let t1: u32 = <u32 as Model>::gen(r); let t2: u32 = <u32 as Model>::gen(r); let t3: u32 = <u32 as Model>::gen(r); let t4: u32 = <u32 as Model>::gen(r); let t5: u32 = <u32 as Model>::gen(r); S42(t0, t1, t2, t3, t4, t5) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); self.5.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct S43(pub i8, pub S41, pub i32);
impl Model for S43 {
    fn schema() -> String { struct_schema(&[fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<S41 as Model>::schema(), false, false, &[]), fieldx(<i32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: i8 = <i8 as Model>::gen(r); let t1: S41 = <S41 as Model>::gen(r); let t2: i32 = <i32 as Model>::gen(r); S43(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct S44 { pub id: f64, pub kind: i16 }
impl Model for S44 {
    fn schema() -> String { struct_schema(&[fieldx(<f64 as Model>::schema(), false, false, &[]), fieldx(<i16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.id.val(o); o.push(','); self.kind.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let id: f64 = <f64 as Model>::gen(r); let kind: i16 = <i16 as Model>::gen(r); S44 { id, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.id.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S45(pub u32, pub i8, pub u32, pub u8);
impl Model for S45 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = <u32 as Model>::gen(r); let t1: i8 = <i8 as Model>::gen(r); let t2: u32 = <u32 as Model>::gen(r); let t3: u8 = <u8 as Model>::gen(r); S45(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct S46 { pub len: u128, pub a: i16, pub r#type: f32 }
impl Model for S46 {
    fn schema() -> String { struct_schema(&[fieldx(<u128 as Model>::schema(), false, false, &[]), fieldx(<i16 as Model>::schema(), false, false, &[]), fieldx(<f32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.len.val(o); o.push(','); self.a.val(o); o.push(','); self.r#type.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: u128 = <u128 as Model>::gen(r); let a: i16 = <i16 as Model>::gen(r); let r#type: f32 = <f32 as Model>::gen(r); S46 { len, a, r#type } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); self.a.borrows(f); self.r#type.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S47(pub u32, pub u32);
impl Model for S47 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = <u32 as Model>::gen(r); let t1: u32 = <u32 as Model>::gen(r); S47(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct S48(pub f32, pub i32, pub u16, pub u64, pub u64);
impl Model for S48 {
    fn schema() -> String { struct_schema(&[fieldx(<f32 as Model>::schema(), false, false, &[]), fieldx(<i32 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: f32 = <f32 as Model>::gen(r); let t1: i32 = <i32 as Model>::gen(r); let t2: u16 = <u16 as Model>::gen(r); let t3: u64 = <u64 as Model>::gen(r); let t4: u64 = <u64 as Model>::gen(r); S48(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S49 { pub len: u8 }
impl Model for S49 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.len.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: u8 = <u8 as Model>::gen(r); S49 { len } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct S50 { pub tag: u8, pub length: u16, pub data: u16, pub name: u128, pub t1: f32 }
impl Model for S50 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u128 as Model>::schema(), false, false, &[]), fieldx(<f32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.tag.val(o); o.push(','); self.length.val(o); o.push(','); self.data.val(o); o.push(','); self.name.val(o); o.push(','); self.t1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let tag: u8 = <u8 as Model>::gen(r); let length: u16 = <u16 as Model>::gen(r); let data: u16 = <u16 as Model>::gen(r); let name: u128 = <u128 as Model>::gen(r); let t1: f32 = <f32 as Model>::gen(r); S50 { tag, length, data, name, t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.tag.borrows(f); self.length.borrows(f); self.data.borrows(f); self.name.borrows(f); self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct S51 { pub data: f64, pub rest: f32 }
impl Model for S51 {
    fn schema() -> String { struct_schema(&[fieldx(<f64 as Model>::schema(), false, false, &[]), fieldx(<f32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.data.val(o); o.push(','); self.rest.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let data: f64 = <f64 as Model>::gen(r); let rest: f32 = <f32 as Model>::gen(r); S51 { data, rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.data.borrows(f); self.rest.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct S52(pub S46, pub S46, pub u16);
impl Model for S52 {
    fn schema() -> String { struct_schema(&[fieldx(<S46 as Model>::schema(), false, false, &[]), fieldx(<S46 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: S46 = <S46 as Model>::gen(r); let t1: S46 = <S46 as Model>::gen(r); let t2: u16 = <u16 as Model>::gen(r); S52(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct S53 { pub id: i32, pub bytes: i32 }
impl Model for S53 {
    fn schema() -> String { struct_schema(&[fieldx(<i32 as Model>::schema(), false, false, &[]), fieldx(<i32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); { let x = self.id; x.val(o); } o.push(','); { let x = self.bytes; x.val(o); } o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let id: i32 = <i32 as Model>::gen(r); let bytes: i32 = <i32 as Model>::gen(r); S53 { id, bytes } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { { let x = self.id; x.borrows(f); } { let x = self.bytes; x.borrows(f); } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct S54(pub u32, pub i8, pub f64, pub f64);
impl Model for S54 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<f64 as Model>::schema(), false, false, &[]), fieldx(<f64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); { let x = self.0; x.val(o); } o.push(','); { let x = self.1; x.val(o); } o.push(','); { let x = self.2; x.val(o); } o.push(','); { let x = self.3; x.val(o); } o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = <u32 as Model>::gen(r); let t1: i8 = <i8 as Model>::gen(r); let t2: f64 = <f64 as Model>::gen(r); let t3: f64 = <f64 as Model>::gen(r); S54(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { { let x = self.0; x.borrows(f); } { let x = self.1; x.borrows(f); } { let x = self.2; x.borrows(f); } { let x = self.3; x.borrows(f); } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct S55 { pub out: u32, pub bytes: u64, pub name: f64, pub slice: u8, pub t1: u16, pub kind: u64 }
impl Model for S55 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<f64 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); { let x = self.out; x.val(o); } o.push(','); { let x = self.bytes; x.val(o); } o.push(','); { let x = self.name; x.val(o); } o.push(','); { let x = self.slice; x.val(o); } o.push(','); { let x = self.t1; x.val(o); } o.push(','); { let x = self.kind; x.val(o); } o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: u32 = <u32 as Model>::gen(r); let bytes: u64 = <u64 as Model>::gen(r); let name: f64 = <f64 as Model>::gen(r); let slice: u8 = <u8 as Model>::gen(r); let t1: u16 = <u16 as Model>::gen(r); let kind: u64 = <u64 as Model>::gen(r); S55 { out, bytes, name, slice, t1, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { { let x = self.out; x.borrows(f); } { let x = self.bytes; x.borrows(f); } { let x = self.name; x.borrows(f); } { let x = self.slice; x.borrows(f); } { let x = self.t1; x.borrows(f); } { let x = self.kind; x.borrows(f); } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct S56 { pub len: i8, pub slice: i8, pub y: i8, pub tag: i8, pub length: i8, pub key: i8 }
impl Model for S56 {
    fn schema() -> String { struct_schema(&[fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); { let x = self.len; x.val(o); } o.push(','); { let x = self.slice; x.val(o); } o.push(','); { let x = self.y; x.val(o); } o.push(','); { let x = self.tag; x.val(o); } o.push(','); { let x = self.length; x.val(o); } o.push(','); { let x = self.key; x.val(o); } o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: i8 = <i8 as Model>::gen(r); let slice: i8 = <i8 as Model>::gen(r); let y: i8 = <i8 as Model>::gen(r); let tag: i8 = <i8 as Model>::gen(r); let length: i8 = <i8 as Model>::gen(r); let key: i8 = <i8 as Model>::gen(r); S56 { len, slice, y, tag, length, key } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { { let x = self.len; x.borrows(f); } { let x = self.slice; x.borrows(f); } { let x = self.y; x.borrows(f); } { let x = self.tag; x.borrows(f); } { let x = self.length; x.borrows(f); } { let x = self.key; x.borrows(f); } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct S57(pub u32, pub i16);
impl Model for S57 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<i16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); { let x = self.0; x.val(o); } o.push(','); { let x = self.1; x.val(o); } o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = <u32 as Model>::gen(r); let t1: i16 = <i16 as Model>::gen(r); S57(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { { let x = self.0; x.borrows(f); } { let x = self.1; x.borrows(f); } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct S58(pub u32);
impl Model for S58 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); { let x = self.0; x.val(o); } o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = <u32 as Model>::gen(r); S58(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { { let x = self.0; x.borrows(f); } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C, packed)] pub struct S59 { pub b: i8, pub bytes: i8, pub rest: i8, pub kind: i8 }
impl Model for S59 {
    fn schema() -> String { struct_schema(&[fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); { let x = self.b; x.val(o); } o.push(','); { let x = self.bytes; x.val(o); } o.push(','); { let x = self.rest; x.val(o); } o.push(','); { let x = self.kind; x.val(o); } o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let b: i8 = <i8 as Model>::gen(r); let bytes: i8 = <i8 as Model>::gen(r); let rest: i8 = <i8 as Model>::gen(r); let kind: i8 = <i8 as Model>::gen(r); S59 { b, bytes, rest, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { { let x = self.b; x.borrows(f); } { let x = self.bytes; x.borrows(f); } { let x = self.rest; x.borrows(f); } { let x = self.kind; x.borrows(f); } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(transparent)] pub struct S60 { pub bytes: S46 }
impl Model for S60 {
    fn schema() -> String { struct_schema(&[fieldx(<S46 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.bytes.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let bytes: S46 = <S46 as Model>::gen(r); S60 { bytes } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.bytes.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(transparent)] pub struct S61(pub i32);
impl Model for S61 {
    fn schema() -> String { struct_schema(&[fieldx(<i32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: i32 = <i32 as Model>::gen(r); S61(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(transparent)] pub struct S62 { pub tag: S38 }
impl Model for S62 {
    fn schema() -> String { struct_schema(&[fieldx(<S38 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.tag.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let tag: S38 = <S38 as Model>::gen(r); S62 { tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(transparent)] pub struct S63 { pub t0: f32 }
impl Model for S63 {
    fn schema() -> String { struct_schema(&[fieldx(<f32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.t0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: f32 = <f32 as Model>::gen(r); S63 { t0 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t0.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S64 { pub t1: u16 }
impl Model for S64 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.t1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: u16 = <u16 as Model>::gen(r); S64 { t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S65(pub i16, pub i16);
impl Model for S65 {
    fn schema() -> String { struct_schema(&[fieldx(<i16 as Model>::schema(), false, false, &[]), fieldx(<i16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: i16 = <i16 as Model>::gen(r); let t1: i16 = <i16 as Model>::gen(r); S65(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S66(pub [u16; 2]);
impl Model for S66 {
    fn schema() -> String { struct_schema(&[fieldx(<[u16; 2] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: [u16; 2] = <[u16; 2] as Model>::gen(r); S66(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S67(pub [u16; 2]);
impl Model for S67 {
    fn schema() -> String { struct_schema(&[fieldx(<[u16; 2] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: [u16; 2] = <[u16; 2] as Model>::gen(r); S67(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct S68 { pub id: i32, pub key: u32, pub name: [u32; 2], pub out: f32 }
impl Model for S68 {
    fn schema() -> String { struct_schema(&[fieldx(<i32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<[u32; 2] as Model>::schema(), false, false, &[]), fieldx(<f32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.id.val(o); o.push(','); self.key.val(o); o.push(','); self.name.val(o); o.push(','); self.out.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let id: i32 = <i32 as Model>::gen(r); let key: u32 = <u32 as Model>::gen(r); let name: [u32; 2] = <[u32; 2] as Model>::gen(r); let out: f32 = <f32 as Model>::gen(r); S68 { id, key, name, out } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.id.borrows(f); self.key.borrows(f); self.name.borrows(f); self.out.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct S69(pub f32, pub [u16; 2]);
impl Model for S69 {
    fn schema() -> String { struct_schema(&[fieldx(<f32 as Model>::schema(), false, false, &[]), fieldx(<[u16; 2] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: f32 = <f32 as Model>::gen(r); let t1: [u16; 2] = <[u16; 2] as Model>::gen(r); S69(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S70 { pub a: i32, pub r#type: i32, pub error: i32, pub kind: i32 }
impl Model for S70 {
    fn schema() -> String { struct_schema(&[fieldx(<i32 as Model>::schema(), false, false, &[]), fieldx(<i32 as Model>::schema(), false, false, &[]), fieldx(<i32 as Model>::schema(), false, false, &[]), fieldx(<i32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.a.val(o); o.push(','); self.r#type.val(o); o.push(','); self.error.val(o); o.push(','); self.kind.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let a: i32 = <i32 as Model>::gen(r); let r#type: i32 = <i32 as Model>::gen(r); let error: i32 = <i32 as Model>::gen(r); let kind: i32 = <i32 as Model>::gen(r); S70 { a, r#type, error, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.a.borrows(f); self.r#type.borrows(f); self.error.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S71(pub [u8; 4], pub [u32; 2], pub [u16; 2], pub [u16; 2], pub [u8; 4]);
impl Model for S71 {
    fn schema() -> String { struct_schema(&[fieldx(<[u8; 4] as Model>::schema(), false, false, &[]), fieldx(<[u32; 2] as Model>::schema(), false, false, &[]), fieldx(<[u16; 2] as Model>::schema(), false, false, &[]), fieldx(<[u16; 2] as Model>::schema(), false, false, &[]), fieldx(<[u8; 4] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: [u8; 4] = <[u8; 4] as Model>::gen(r); let t1: [u32; 2] = <[u32; 2] as Model>::gen(r); let t2: [u16; 2] = <[u16; 2] as Model>::gen(r); let t3: [u16; 2] = <[u16; 2] as Model>::gen(r); let t4: [u8; 4] = <[u8; 4] as Model>::gen(r); S71(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S72 { pub result: u8, pub rest: u16, pub bytes: u32 }
impl Model for S72 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.result.val(o); o.push(','); self.rest.val(o); o.push(','); self.bytes.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: u8 = <u8 as Model>::gen(r); let rest: u16 = <u16 as Model>::gen(r); let bytes: u32 = <u32 as Model>::gen(r); S72 { result, rest, bytes } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.result.borrows(f); self.rest.borrows(f); self.bytes.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S73 { pub t0: u16, pub a: u8, pub reader: u8, pub size: u16, pub tag: u16 }
impl Model for S73 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.t0.val(o); o.push(','); self.a.val(o); o.push(','); self.reader.val(o); o.push(','); self.size.val(o); o.push(','); self.tag.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let a: u8 = <u8 as Model>::gen(r); let reader: u8 = <u8 as Model>::gen(r); let size: u16 = <u16 as Model>::gen(r); let tag: u16 = <u16 as Model>::gen(r); S73 { t0, a, reader, size, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t0.borrows(f); self.a.borrows(f); self.reader.borrows(f); self.size.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S74(pub u8, pub u8, pub u8);
impl Model for S74 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); let t2: u8 = <u8 as Model>::gen(r); S74(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S75(pub u16, pub u16, pub u16, pub u16, pub u16);
impl Model for S75 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: u16 = <u16 as Model>::gen(r); let t2: u16 = <u16 as Model>::gen(r); let t3: u16 = <u16 as Model>::gen(r); let t4: u16 = <u16 as Model>::gen(r); S75(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct S76(pub u16);
impl Model for S76 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); { let x = self.0; x.val(o); } o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); S76(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { { let x = self.0; x.borrows(f); } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct S77 { pub length: [u32; 2], pub slice: [u32; 2], pub r#type: [u32; 2], pub count: [u32; 2], pub data: [u32; 2], pub y: [u32; 2] }
impl Model for S77 {
    fn schema() -> String { struct_schema(&[fieldx(<[u32; 2] as Model>::schema(), false, false, &[]), fieldx(<[u32; 2] as Model>::schema(), false, false, &[]), fieldx(<[u32; 2] as Model>::schema(), false, false, &[]), fieldx(<[u32; 2] as Model>::schema(), false, false, &[]), fieldx(<[u32; 2] as Model>::schema(), false, false, &[]), fieldx(<[u32; 2] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); { let x = self.length; x.val(o); } o.push(','); { let x = self.slice; x.val(o); } o.push(','); { let x = self.r#type; x.val(o); } o.push(','); { let x = self.count; x.val(o); } o.push(','); { let x = self.data; x.val(o); } o.push(','); { let x = self.y; x.val(o); } o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: [u32; 2] = <[u32; 2] as Model>::gen(r); let slice: [u32; 2] = <[u32; 2] as Model>::gen(r); let r#type: [u32; 2] = <[u32; 2] as Model>::gen(r); let count: [u32; 2] = <[u32; 2] as Model>::gen(r); let data: [u32; 2] = <[u32; 2] as Model>::gen(r); let y: [u32; 2] = <[u32; 2] as Model>::gen(r); S77 { length, slice, r#type, count, data, y } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { { let x = self.length; x.borrows(f); } { let x = self.slice; x.borrows(f); } { let x = self.r#type; x.borrows(f); } { let x = self.count; x.borrows(f); } { let x = self.data; x.borrows(f); } { let x = self.y; x.borrows(f); } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct S78 { pub error: u64, pub key: u16, pub flags: u64, pub y: u16, pub slice: [u32; 2] }
impl Model for S78 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<[u32; 2] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); { let x = self.error; x.val(o); } o.push(','); { let x = self.key; x.val(o); } o.push(','); { let x = self.flags; x.val(o); } o.push(','); { let x = self.y; x.val(o); } o.push(','); { let x = self.slice; x.val(o); } o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let error: u64 = <u64 as Model>::gen(r); let key: u16 = <u16 as Model>::gen(r); let flags: u64 = <u64 as Model>::gen(r); let y: u16 = <u16 as Model>::gen(r); let slice: [u32; 2] = <[u32; 2] as Model>::gen(r); S78 { error, key, flags, y, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { { let x = self.error; x.borrows(f); } { let x = self.key; x.borrows(f); } { let x = self.flags; x.borrows(f); } { let x = self.y; x.borrows(f); } { let x = self.slice; x.borrows(f); } let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct Q79(pub u16, pub u32, pub u16);
impl Model for Q79 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: u32 = <u32 as Model>::gen(r); let t2: u16 = <u16 as Model>::gen(r); Q79(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct Q80 { pub length: u16, pub value: u16, pub data: u32 }
impl Model for Q80 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.length).val(o); o.push(','); (self.value).val(o); o.push(','); (self.data).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: u16 = <u16 as Model>::gen(r); let value: u16 = <u16 as Model>::gen(r); let data: u32 = <u32 as Model>::gen(r); Q80 { length, value, data } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); self.value.borrows(f); self.data.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct Q81 { pub name: u32, pub x: u16, pub r#type: u16 }
impl Model for Q81 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.name).val(o); o.push(','); (self.x).val(o); o.push(','); (self.r#type).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: u32 = <u32 as Model>::gen(r); let x: u16 = <u16 as Model>::gen(r); let r#type: u16 = <u16 as Model>::gen(r); Q81 { name, x, r#type } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); self.x.borrows(f); self.r#type.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct Q82 { pub len: u16, pub length: u8, pub slice: u8 }
impl Model for Q82 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.len).val(o); o.push(','); (self.length).val(o); o.push(','); (self.slice).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: u16 = <u16 as Model>::gen(r); let length: u8 = <u8 as Model>::gen(r); let slice: u8 = <u8 as Model>::gen(r); Q82 { len, length, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); self.length.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct Q83(pub u8, pub u8, pub u16);
impl Model for Q83 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); let t2: u16 = <u16 as Model>::gen(r); Q83(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct Q84 { pub rest: u8, pub r#type: u16, pub count: u8 }
impl Model for Q84 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.rest).val(o); o.push(','); (self.r#type).val(o); o.push(','); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let rest: u8 = <u8 as Model>::gen(r); let r#type: u16 = <u16 as Model>::gen(r); let count: u8 = <u8 as Model>::gen(r); Q84 { rest, r#type, count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.rest.borrows(f); self.r#type.borrows(f); self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct Q85(pub u8, pub u16, pub u8, pub u32);
impl Model for Q85 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(','); (self.3).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: u16 = <u16 as Model>::gen(r); let t2: u8 = <u8 as Model>::gen(r); let t3: u32 = <u32 as Model>::gen(r); Q85(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct Q86 { pub size: u16, pub b: u32, pub bytes: u8, pub data: u32, pub value: u8 }
impl Model for Q86 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.size).val(o); o.push(','); (self.b).val(o); o.push(','); (self.bytes).val(o); o.push(','); (self.data).val(o); o.push(','); (self.value).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let size: u16 = <u16 as Model>::gen(r); let b: u32 = <u32 as Model>::gen(r); let bytes: u8 = <u8 as Model>::gen(r); let data: u32 = <u32 as Model>::gen(r); let value: u8 = <u8 as Model>::gen(r); Q86 { size, b, bytes, data, value } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.size.borrows(f); self.b.borrows(f); self.bytes.borrows(f); self.data.borrows(f); self.value.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct Q87 { pub flags: u16, pub rest: u32, pub len: u64, pub r#type: u16 }
impl Model for Q87 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.flags).val(o); o.push(','); (self.rest).val(o); o.push(','); (self.len).val(o); o.push(','); (self.r#type).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let flags: u16 = <u16 as Model>::gen(r); let rest: u32 = <u32 as Model>::gen(r); let len: u64 = <u64 as Model>::gen(r); let r#type: u16 = <u16 as Model>::gen(r); Q87 { flags, rest, len, r#type } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.flags.borrows(f); self.rest.borrows(f); self.len.borrows(f); self.r#type.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct Q88(pub u16, pub u32, pub u32, pub u16, pub u32);
impl Model for Q88 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(','); (self.3).val(o); o.push(','); (self.4).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: u32 = <u32 as Model>::gen(r); let t2: u32 = <u32 as Model>::gen(r); let t3: u16 = <u16 as Model>::gen(r); let t4: u32 = <u32 as Model>::gen(r); Q88(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct Q89(pub u16, pub u8, pub u16, pub u16, pub u8);
impl Model for Q89 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(','); (self.3).val(o); o.push(','); (self.4).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); let t2: u16 = <u16 as Model>::gen(r); let t3: u16 = <u16 as Model>::gen(r); let t4: u8 = <u8 as Model>::gen(r); Q89(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct Q90(pub u8, pub u32, pub u32, pub u8, pub u16);
impl Model for Q90 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(','); (self.3).val(o); o.push(','); (self.4).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: u32 = <u32 as Model>::gen(r); let t2: u32 = <u32 as Model>::gen(r); let t3: u8 = <u8 as Model>::gen(r); let t4: u16 = <u16 as Model>::gen(r); Q90(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct Q91(pub u32, pub u16, pub u32, pub u16);
impl Model for Q91 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(','); (self.3).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = <u32 as Model>::gen(r); let t1: u16 = <u16 as Model>::gen(r); let t2: u32 = <u32 as Model>::gen(r); let t3: u16 = <u16 as Model>::gen(r); Q91(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct Q92(pub u8, pub u16, pub u8, pub u8, pub u8);
impl Model for Q92 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(','); (self.3).val(o); o.push(','); (self.4).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: u16 = <u16 as Model>::gen(r); let t2: u8 = <u8 as Model>::gen(r); let t3: u8 = <u8 as Model>::gen(r); let t4: u8 = <u8 as Model>::gen(r); Q92(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct Q93(pub u32, pub u64, pub u64, pub u32);
impl Model for Q93 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(','); (self.3).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = <u32 as Model>::gen(r); let t1: u64 = <u64 as Model>::gen(r); let t2: u64 = <u64 as Model>::gen(r); let t3: u32 = <u32 as Model>::gen(r); Q93(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct Q94 { pub b: u32, pub flags: u16, pub rest: u32, pub a: u8, pub kind: u8 }
impl Model for Q94 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.b).val(o); o.push(','); (self.flags).val(o); o.push(','); (self.rest).val(o); o.push(','); (self.a).val(o); o.push(','); (self.kind).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let b: u32 = <u32 as Model>::gen(r); let flags: u16 = <u16 as Model>::gen(r); let rest: u32 = <u32 as Model>::gen(r); let a: u8 = <u8 as Model>::gen(r); let kind: u8 = <u8 as Model>::gen(r); Q94 { b, flags, rest, a, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.b.borrows(f); self.flags.borrows(f); self.rest.borrows(f); self.a.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] #[speedy(unsafe_is_primitive = always)] pub struct S95 { pub out: u32, pub count: u32, pub t0: u32 }
impl Model for S95 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.out.val(o); o.push(','); self.count.val(o); o.push(','); self.t0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: u32 = <u32 as Model>::gen(r); let count: u32 = <u32 as Model>::gen(r); let t0: u32 = <u32 as Model>::gen(r); S95 { out, count, t0 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.out.borrows(f); self.count.borrows(f); self.t0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S96<'a>(#[speedy(length_type = u8)] pub Option<String>, pub u8, #[speedy(length = t1 / 2 + 1)] pub &'a str, pub [i16; 1], #[speedy(varint)] pub u64);
impl Model for S96<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<String> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"add\",\"a\":{\"x\":\"div\",\"a\":{\"x\":\"f\",\"i\":2},\"b\":{\"x\":\"n\",\"n\":2}},\"b\":{\"x\":\"n\",\"n\":1}},\"nm\":\"t2\"}"), false, false, &[]), fieldx(<[i16; 1] as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<String> = { gen_upto::<Option<String>>(r, "u8") }; let t1: u8 = (r.below(24) as u8); let t2: &'static str = { let n = (t1 / 2 + 1) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <&'static str as GenN>::gen_n(r, n) }; let t3: [i16; 1] = <[i16; 1] as Model>::gen(r); let t4: u64 = <u64 as Model>::gen(r); S96(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S97<'a> { #[speedy(length_type = u7)] pub len: BTreeMap<i16, u64>, #[speedy(length_type = u7)] pub result: Cow<'a, [i64]>, #[speedy(length_type = u64_varint)] pub data: HashMap<u32, char>, #[speedy(varint)] pub tag: u64 }
impl Model for S97<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<i16, u64> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, [i64]> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(with_lt(<HashMap<u32, char> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.len.val(o); o.push(','); self.result.val(o); o.push(','); self.data.val(o); o.push(','); self.tag.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: BTreeMap<i16, u64> = { gen_upto::<BTreeMap<i16, u64>>(r, "u7") }; let result: Cow<'static, [i64]> = { gen_upto::<Cow<'static, [i64]>>(r, "u7") }; let data: HashMap<u32, char> = { gen_upto::<HashMap<u32, char>>(r, "varint") }; let tag: u64 = <u64 as Model>::gen(r); S97 { len, result, data, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); self.result.borrows(f); self.data.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S98<'a> { #[speedy(length_type = u8)] pub id: Vec<S26>, #[speedy(length_type = u64_varint)] pub b: &'a [u8], #[speedy(length_type = u16)] pub result: String, pub flags: u8, pub length: [u32; 2] }
impl Model for S98<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<S26> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<&'static [u8] as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<[u32; 2] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.id.val(o); o.push(','); self.b.val(o); o.push(','); self.result.val(o); o.push(','); self.flags.val(o); o.push(','); self.length.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let id: Vec<S26> = { gen_upto::<Vec<S26>>(r, "u8") }; let b: &'static [u8] = { gen_upto::<&'static [u8]>(r, "varint") }; let result: String = { gen_upto::<String>(r, "u16") }; let flags: u8 = (r.below(24) as u8); let length: [u32; 2] = <[u32; 2] as Model>::gen(r); S98 { id, b, result, flags, length } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.id.borrows(f); self.b.borrows(f); self.result.borrows(f); self.flags.borrows(f); self.length.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S99 { pub y: u8, #[speedy(length_type = u32)] pub t0: HashSet<char> }
impl Model for S99 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<HashSet<char> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.y.val(o); o.push(','); self.t0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: u8 = (r.below(24) as u8); let t0: HashSet<char> = { gen_upto::<HashSet<char>>(r, "u32") }; S99 { y, t0 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.y.borrows(f); self.t0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S100<'a> { #[speedy(length_type = u64)] pub bytes: Cow<'a, HashSet<u32>>, #[speedy(length = ..)] pub data: String }
impl Model for S100<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, HashSet<u32>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.bytes.val(o); o.push(','); self.data.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let bytes: Cow<'static, HashSet<u32>> = { gen_upto::<Cow<'static, HashSet<u32>>>(r, "u64") }; let data: String = <String as Model>::gen(r); S100 { bytes, data } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.bytes.borrows(f); self.data.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S101<'a>(pub Vec<f32>, pub Cow<'a, BTreeMap<u8, u32>>);
impl Model for S101<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<Vec<f32> as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, BTreeMap<u8, u32>> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<f32> = <Vec<f32> as Model>::gen(r); let t1: Cow<'static, BTreeMap<u8, u32>> = <Cow<'static, BTreeMap<u8, u32>> as Model>::gen(r); S101(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S102<'a>(#[speedy(length_type = u16)] pub BTreeMap<u64, Vec<f64>>, #[speedy(length_type = u32)] pub String, #[speedy(length_type = u8)] pub &'a str, #[speedy(varint)] pub u64, #[speedy(length_type = u32)] pub Cow<'a, BTreeSet<u16>>);
impl Model for S102<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<u64, Vec<f64>> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeSet<u16>> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: BTreeMap<u64, Vec<f64>> = { gen_upto::<BTreeMap<u64, Vec<f64>>>(r, "u16") }; let t1: String = { gen_upto::<String>(r, "u32") }; let t2: &'static str = { gen_upto::<&'static str>(r, "u8") }; let t3: u64 = <u64 as Model>::gen(r); let t4: Cow<'static, BTreeSet<u16>> = { gen_upto::<Cow<'static, BTreeSet<u16>>>(r, "u32") }; S102(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S103 { pub count: u8, #[speedy(length = count % 7)] pub t1: String }
impl Model for S103 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"mod\",\"a\":{\"x\":\"f\",\"i\":1},\"b\":{\"x\":\"n\",\"n\":7}},\"nm\":\"t1\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.count.val(o); o.push(','); self.t1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: u8 = (r.below(24) as u8); let t1: String = { let n = (count % 7) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <String as GenN>::gen_n(r, n) }; S103 { count, t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S104 { #[speedy(varint)] pub value: u64, #[speedy(length = ..)] pub t0: Vec<i64> }
impl Model for S104 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(with_lt(<Vec<i64> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.value.val(o); o.push(','); self.t0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let value: u64 = <u64 as Model>::gen(r); let t0: Vec<i64> = <Vec<i64> as Model>::gen(r); S104 { value, t0 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.value.borrows(f); self.t0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S105<'a>(#[speedy(length_type = u7)] pub &'a str, pub u8, #[speedy(length_type = u32)] pub Cow<'a, BTreeSet<u16>>, #[speedy(length = ..)] pub HashMap<char, u8>);
impl Model for S105<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeSet<u16>> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(with_lt(<HashMap<char, u8> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static str = { gen_upto::<&'static str>(r, "u7") }; let t1: u8 = <u8 as Model>::gen(r); let t2: Cow<'static, BTreeSet<u16>> = { gen_upto::<Cow<'static, BTreeSet<u16>>>(r, "u32") }; let t3: HashMap<char, u8> = <HashMap<char, u8> as Model>::gen(r); S105(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S106<'a>(#[speedy(length_type = u16)] pub String, #[speedy(length_type = u16)] pub &'a str, pub u8, pub u8);
impl Model for S106<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: String = { gen_upto::<String>(r, "u16") }; let t1: &'static str = { gen_upto::<&'static str>(r, "u16") }; let t2: u8 = (r.below(24) as u8); let t3: u8 = (r.below(24) as u8); S106(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S107<'a> { #[speedy(length_type = u8)] pub kind: HashMap<u8, S9<'a>>, #[speedy(length_type = u7)] pub bytes: String, #[speedy(length = ..)] pub rest: BTreeSet<char> }
impl Model for S107<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<HashMap<u8, S9<'static>> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(with_lt(<BTreeSet<char> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.kind.val(o); o.push(','); self.bytes.val(o); o.push(','); self.rest.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let kind: HashMap<u8, S9<'static>> = { gen_upto::<HashMap<u8, S9<'static>>>(r, "u8") }; let bytes: String = { gen_upto::<String>(r, "u7") }; let rest: BTreeSet<char> = <BTreeSet<char> as Model>::gen(r); S107 { kind, bytes, rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.kind.borrows(f); self.bytes.borrows(f); self.rest.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S108<'a> { #[speedy(length_type = u8)] pub id: &'a str, #[speedy(length = ..)] pub x: String }
impl Model for S108<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.id.val(o); o.push(','); self.x.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let id: &'static str = { gen_upto::<&'static str>(r, "u8") }; let x: String = <String as Model>::gen(r); S108 { id, x } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.id.borrows(f); self.x.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S109(#[speedy(length_type = u7)] pub Vec<u8>, #[speedy(length_type = u8)] pub Vec<u32>, #[speedy(length = ..)] pub Vec<u8>);
impl Model for S109 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(with_lt(<Vec<u32> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<u8> = { gen_upto::<Vec<u8>>(r, "u7") }; let t1: Vec<u32> = { gen_upto::<Vec<u32>>(r, "u8") }; let t2: Vec<u8> = <Vec<u8> as Model>::gen(r); S109(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S110(pub u8, #[speedy(length = t0 / 2)] pub HashSet<u8>);
impl Model for S110 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<HashSet<u8> as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"div\",\"a\":{\"x\":\"f\",\"i\":1},\"b\":{\"x\":\"n\",\"n\":2}},\"nm\":\"t1\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = (r.below(24) as u8); let t1: HashSet<u8> = { let n = (t0 / 2) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <HashSet<u8> as GenN>::gen_n(r, n) }; S110(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S111<'a> { #[speedy(length_type = u16)] pub b: Cow<'a, str>, #[speedy(length_type = u64_varint)] pub x: Cow<'a, str>, #[speedy(length = ..)] pub slice: Cow<'a, [i8]> }
impl Model for S111<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, str> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, str> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, [i8]> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.b.val(o); o.push(','); self.x.val(o); o.push(','); self.slice.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let b: Cow<'static, str> = { gen_upto::<Cow<'static, str>>(r, "u16") }; let x: Cow<'static, str> = { gen_upto::<Cow<'static, str>>(r, "varint") }; let slice: Cow<'static, [i8]> = <Cow<'static, [i8]> as Model>::gen(r); S111 { b, x, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.b.borrows(f); self.x.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S112<'a>(pub u32, #[speedy(length_type = u32)] pub Cow<'a, str>, pub BTreeMap<i16, char>, #[speedy(varint)] pub u64);
impl Model for S112<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, str> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(<BTreeMap<i16, char> as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = (r.below(24) as u32); let t1: Cow<'static, str> = { gen_upto::<Cow<'static, str>>(r, "u32") }; let t2: BTreeMap<i16, char> = <BTreeMap<i16, char> as Model>::gen(r); let t3: u64 = <u64 as Model>::gen(r); S112(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S113(#[speedy(length_type = u32)] pub BTreeSet<bool>, #[speedy(length_type = u64_varint)] pub HashMap<u32, u128>, #[speedy(length_type = u16)] pub Vec<i8>, #[speedy(length_type = u32)] pub Vec<u16>);
impl Model for S113 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeSet<bool> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(with_lt(<HashMap<u32, u128> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<Vec<i8> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<Vec<u16> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: BTreeSet<bool> = { gen_upto::<BTreeSet<bool>>(r, "u32") }; let t1: HashMap<u32, u128> = { gen_upto::<HashMap<u32, u128>>(r, "varint") }; let t2: Vec<i8> = { gen_upto::<Vec<i8>>(r, "u16") }; let t3: Vec<u16> = { gen_upto::<Vec<u16>>(r, "u32") }; S113(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S114(pub u8, #[speedy(varint)] pub u64, #[speedy(length_type = u64)] pub HashSet<char>);
impl Model for S114 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(with_lt(<HashSet<char> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = (r.below(24) as u8); let t1: u64 = <u64 as Model>::gen(r); let t2: HashSet<char> = { gen_upto::<HashSet<char>>(r, "u64") }; S114(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S115<'a>(#[speedy(length_type = u7)] pub Cow<'a, BTreeSet<u16>>, pub u8, #[speedy(length_type = u8)] pub String, pub u8);
impl Model for S115<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, BTreeSet<u16>> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Cow<'static, BTreeSet<u16>> = { gen_upto::<Cow<'static, BTreeSet<u16>>>(r, "u7") }; let t1: u8 = (r.below(24) as u8); let t2: String = { gen_upto::<String>(r, "u8") }; let t3: u8 = (r.below(24) as u8); S115(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S116<'a> { #[speedy(length_type = u32)] pub data: Cow<'a, HashSet<u32>>, #[speedy(length_type = u8)] pub y: &'a str, #[speedy(length_type = u8)] pub len: Cow<'a, [u64]>, #[speedy(length = ..)] pub reader: Vec<i32> }
impl Model for S116<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, HashSet<u32>> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, [u64]> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<Vec<i32> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.data.val(o); o.push(','); self.y.val(o); o.push(','); self.len.val(o); o.push(','); self.reader.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let data: Cow<'static, HashSet<u32>> = { gen_upto::<Cow<'static, HashSet<u32>>>(r, "u32") }; let y: &'static str = { gen_upto::<&'static str>(r, "u8") }; let len: Cow<'static, [u64]> = { gen_upto::<Cow<'static, [u64]>>(r, "u8") }; let reader: Vec<i32> = <Vec<i32> as Model>::gen(r); S116 { data, y, len, reader } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.data.borrows(f); self.y.borrows(f); self.len.borrows(f); self.reader.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S117<'a> { #[speedy(length_type = u32)] pub b: Cow<'a, [u16]>, #[speedy(length_type = u64)] pub t1: BTreeSet<u32>, pub count: u8, pub len: Vec<BTreeSet<String>> }
impl Model for S117<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, [u16]> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(with_lt(<BTreeSet<u32> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<Vec<BTreeSet<String>> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.b.val(o); o.push(','); self.t1.val(o); o.push(','); self.count.val(o); o.push(','); self.len.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let b: Cow<'static, [u16]> = { gen_upto::<Cow<'static, [u16]>>(r, "u32") }; let t1: BTreeSet<u32> = { gen_upto::<BTreeSet<u32>>(r, "u64") }; let count: u8 = (r.below(24) as u8); let len: Vec<BTreeSet<String>> = <Vec<BTreeSet<String>> as Model>::gen(r); S117 { b, t1, count, len } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.b.borrows(f); self.t1.borrows(f); self.count.borrows(f); self.len.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S118(#[speedy(length_type = u16)] pub HashMap<char, BTreeMap<String, char>>, #[speedy(length_type = u8)] pub BTreeSet<u8>, pub u8);
impl Model for S118 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<HashMap<char, BTreeMap<String, char>> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<BTreeSet<u8> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: HashMap<char, BTreeMap<String, char>> = { gen_upto::<HashMap<char, BTreeMap<String, char>>>(r, "u16") }; let t1: BTreeSet<u8> = { gen_upto::<BTreeSet<u8>>(r, "u8") }; let t2: u8 = (r.below(24) as u8); S118(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S119<'a>(#[speedy(length_type = u16)] pub Vec<[i8; 1]>, #[speedy(length_type = u64)] pub Cow<'a, HashMap<u16, u8>>, #[speedy(length_type = u16)] pub Vec<u32>, #[speedy(length_type = u32)] pub Cow<'a, [i16]>);
impl Model for S119<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<[i8; 1]> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, HashMap<u16, u8>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(with_lt(<Vec<u32> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, [i16]> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<[i8; 1]> = { gen_upto::<Vec<[i8; 1]>>(r, "u16") }; let t1: Cow<'static, HashMap<u16, u8>> = { gen_upto::<Cow<'static, HashMap<u16, u8>>>(r, "u64") }; let t2: Vec<u32> = { gen_upto::<Vec<u32>>(r, "u16") }; let t3: Cow<'static, [i16]> = { gen_upto::<Cow<'static, [i16]>>(r, "u32") }; S119(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S120<'a>(pub u8, #[speedy(length = t0 % 4)] pub &'a str, #[speedy(length_type = u32)] pub String);
impl Model for S120<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"mod\",\"a\":{\"x\":\"f\",\"i\":1},\"b\":{\"x\":\"n\",\"n\":4}},\"nm\":\"t1\"}"), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = (r.below(24) as u8); let t1: &'static str = { let n = (t0 % 4) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <&'static str as GenN>::gen_n(r, n) }; let t2: String = { gen_upto::<String>(r, "u32") }; S120(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S121 { #[speedy(length_type = u16)] pub flags: HashMap<u16, String>, #[speedy(length_type = u16)] pub count: String, #[speedy(varint)] pub b: u64, #[speedy(length_type = u64)] pub slice: String, pub size: u8 }
impl Model for S121 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<HashMap<u16, String> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.flags.val(o); o.push(','); self.count.val(o); o.push(','); self.b.val(o); o.push(','); self.slice.val(o); o.push(','); self.size.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let flags: HashMap<u16, String> = { gen_upto::<HashMap<u16, String>>(r, "u16") }; let count: String = { gen_upto::<String>(r, "u16") }; let b: u64 = <u64 as Model>::gen(r); let slice: String = { gen_upto::<String>(r, "u64") }; let size: u8 = (r.below(24) as u8); S121 { flags, count, b, slice, size } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.flags.borrows(f); self.count.borrows(f); self.b.borrows(f); self.slice.borrows(f); self.size.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S122<'a> { #[speedy(length_type = u64)] pub r#type: Vec<i32>, #[speedy(length_type = u32)] pub size: Cow<'a, HashSet<u32>>, #[speedy(length_type = u8)] pub kind: Vec<Vec<i128>> }
impl Model for S122<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<i32> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, HashSet<u32>> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(with_lt(<Vec<Vec<i128>> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.r#type.val(o); o.push(','); self.size.val(o); o.push(','); self.kind.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let r#type: Vec<i32> = { gen_upto::<Vec<i32>>(r, "u64") }; let size: Cow<'static, HashSet<u32>> = { gen_upto::<Cow<'static, HashSet<u32>>>(r, "u32") }; let kind: Vec<Vec<i128>> = { gen_upto::<Vec<Vec<i128>>>(r, "u8") }; S122 { r#type, size, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.r#type.borrows(f); self.size.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S123<'a> { #[speedy(length_type = u64)] pub length: &'a [u8], pub a: String, #[speedy(length_type = u7)] pub out: Vec<u16>, #[speedy(length = ..)] pub kind: Cow<'a, BTreeSet<u16>> }
impl Model for S123<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static [u8] as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<u16> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeSet<u16>> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.length.val(o); o.push(','); self.a.val(o); o.push(','); self.out.val(o); o.push(','); self.kind.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: &'static [u8] = { gen_upto::<&'static [u8]>(r, "u64") }; let a: String = <String as Model>::gen(r); let out: Vec<u16> = { gen_upto::<Vec<u16>>(r, "u7") }; let kind: Cow<'static, BTreeSet<u16>> = <Cow<'static, BTreeSet<u16>> as Model>::gen(r); S123 { length, a, out, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); self.a.borrows(f); self.out.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S124(pub u8, pub u8, #[speedy(length_type = u8)] pub Option<BTreeMap<u32, BTreeMap<u8, u128>>>);
impl Model for S124 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Option<BTreeMap<u32, BTreeMap<u8, u128>>> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = (r.below(24) as u8); let t1: u8 = (r.below(24) as u8); let t2: Option<BTreeMap<u32, BTreeMap<u8, u128>>> = { gen_upto::<Option<BTreeMap<u32, BTreeMap<u8, u128>>>>(r, "u8") }; S124(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S125<'a>(pub u8, #[speedy(length = t0)] pub Cow<'a, HashSet<u32>>, #[speedy(length_type = u64)] pub Cow<'a, HashSet<u32>>, #[speedy(length_type = u64)] pub Vec<u32>, #[speedy(length_type = u64_varint)] pub Option<Cow<'a, [i32]>>);
impl Model for S125<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, HashSet<u32>> as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"f\",\"i\":1},\"nm\":\"t1\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, HashSet<u32>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(with_lt(<Vec<u32> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(with_lt(<Option<Cow<'static, [i32]>> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = (r.below(24) as u8); let t1: Cow<'static, HashSet<u32>> = { let n = (t0) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <Cow<'static, HashSet<u32>> as GenN>::gen_n(r, n) }; let t2: Cow<'static, HashSet<u32>> = { gen_upto::<Cow<'static, HashSet<u32>>>(r, "u64") }; let t3: Vec<u32> = { gen_upto::<Vec<u32>>(r, "u64") }; let t4: Option<Cow<'static, [i32]>> = { gen_upto::<Option<Cow<'static, [i32]>>>(r, "varint") }; S125(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S126<'a> { #[speedy(length_type = u16)] pub result: HashSet<char>, #[speedy(length_type = u64_varint)] pub kind: Cow<'a, BTreeMap<u16, bool>>, #[speedy(length = ..)] pub error: HashMap<u32, u16> }
impl Model for S126<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<HashSet<char> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeMap<u16, bool>> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<HashMap<u32, u16> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.result.val(o); o.push(','); self.kind.val(o); o.push(','); self.error.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: HashSet<char> = { gen_upto::<HashSet<char>>(r, "u16") }; let kind: Cow<'static, BTreeMap<u16, bool>> = { gen_upto::<Cow<'static, BTreeMap<u16, bool>>>(r, "varint") }; let error: HashMap<u32, u16> = <HashMap<u32, u16> as Model>::gen(r); S126 { result, kind, error } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.result.borrows(f); self.kind.borrows(f); self.error.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S127<'a> { pub size: u16, #[speedy(length_type = u64)] pub value: Cow<'a, BTreeMap<u16, bool>>, pub kind: i128, #[speedy(length_type = u16)] pub id: Option<String>, #[speedy(length = size)] pub out: HashSet<char> }
impl Model for S127<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeMap<u16, bool>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(<i128 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Option<String> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<HashSet<char> as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"f\",\"i\":1},\"nm\":\"out\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.size.val(o); o.push(','); self.value.val(o); o.push(','); self.kind.val(o); o.push(','); self.id.val(o); o.push(','); self.out.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let size: u16 = (r.below(24) as u16); let value: Cow<'static, BTreeMap<u16, bool>> = { gen_upto::<Cow<'static, BTreeMap<u16, bool>>>(r, "u64") }; let kind: i128 = <i128 as Model>::gen(r); let id: Option<String> = { gen_upto::<Option<String>>(r, "u16") }; let out: HashSet<char> = { let n = (size) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <HashSet<char> as GenN>::gen_n(r, n) }; S127 { size, value, kind, id, out } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.size.borrows(f); self.value.borrows(f); self.kind.borrows(f); self.id.borrows(f); self.out.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S128<'a> { pub out: bool, #[speedy(length_type = u8)] pub r#type: Option<Cow<'a, str>>, #[speedy(length_type = u8)] pub result: Cow<'a, BTreeSet<u16>>, #[speedy(length = ..)] pub length: Cow<'a, HashSet<u32>> }
impl Model for S128<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<bool as Model>::schema(), false, false, &[]), fieldx(with_lt(<Option<Cow<'static, str>> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeSet<u16>> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, HashSet<u32>> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.out.val(o); o.push(','); self.r#type.val(o); o.push(','); self.result.val(o); o.push(','); self.length.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: bool = <bool as Model>::gen(r); let r#type: Option<Cow<'static, str>> = { gen_upto::<Option<Cow<'static, str>>>(r, "u8") }; let result: Cow<'static, BTreeSet<u16>> = { gen_upto::<Cow<'static, BTreeSet<u16>>>(r, "u8") }; let length: Cow<'static, HashSet<u32>> = <Cow<'static, HashSet<u32>> as Model>::gen(r); S128 { out, r#type, result, length } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.out.borrows(f); self.r#type.borrows(f); self.result.borrows(f); self.length.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S129(#[speedy(length_type = u8)] pub Vec<char>, pub u128);
impl Model for S129 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<char> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(<u128 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<char> = { gen_upto::<Vec<char>>(r, "u8") }; let t1: u128 = <u128 as Model>::gen(r); S129(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S130<'a> { #[speedy(length_type = u16)] pub x: Vec<String>, #[speedy(length_type = u7)] pub data: BTreeSet<u32>, #[speedy(length_type = u64_varint)] pub id: Cow<'a, str>, #[speedy(length_type = u64)] pub value: Vec<u32> }
impl Model for S130<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<String> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<BTreeSet<u32> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, str> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<Vec<u32> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.x.val(o); o.push(','); self.data.val(o); o.push(','); self.id.val(o); o.push(','); self.value.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let x: Vec<String> = { gen_upto::<Vec<String>>(r, "u16") }; let data: BTreeSet<u32> = { gen_upto::<BTreeSet<u32>>(r, "u7") }; let id: Cow<'static, str> = { gen_upto::<Cow<'static, str>>(r, "varint") }; let value: Vec<u32> = { gen_upto::<Vec<u32>>(r, "u64") }; S130 { x, data, id, value } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.x.borrows(f); self.data.borrows(f); self.id.borrows(f); self.value.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S131<'a> { pub x: u8, #[speedy(length = x % 4)] pub count: Cow<'a, str>, #[speedy(length = (x / 4) * 2)] pub result: BTreeMap<i16, i64>, #[speedy(length_type = u64_varint)] pub value: &'a str, #[speedy(length = ..)] pub tag: HashSet<bool> }
impl Model for S131<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, str> as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"mod\",\"a\":{\"x\":\"f\",\"i\":1},\"b\":{\"x\":\"n\",\"n\":4}},\"nm\":\"count\"}"), false, false, &[]), fieldx(with_lt(<BTreeMap<i16, i64> as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"mul\",\"a\":{\"x\":\"div\",\"a\":{\"x\":\"f\",\"i\":1},\"b\":{\"x\":\"n\",\"n\":4}},\"b\":{\"x\":\"n\",\"n\":2}},\"nm\":\"result\"}"), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<HashSet<bool> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.x.val(o); o.push(','); self.count.val(o); o.push(','); self.result.val(o); o.push(','); self.value.val(o); o.push(','); self.tag.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let x: u8 = (r.below(24) as u8); let count: Cow<'static, str> = { let n = (x % 4) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <Cow<'static, str> as GenN>::gen_n(r, n) }; let result: BTreeMap<i16, i64> = { let n = ((x / 4) * 2) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <BTreeMap<i16, i64> as GenN>::gen_n(r, n) }; let value: &'static str = { gen_upto::<&'static str>(r, "varint") }; let tag: HashSet<bool> = <HashSet<bool> as Model>::gen(r); S131 { x, count, result, value, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.x.borrows(f); self.count.borrows(f); self.result.borrows(f); self.value.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S132<'a>(#[speedy(length_type = u7)] pub Cow<'a, [u64]>, #[speedy(length_type = u64_varint)] pub Cow<'a, str>, #[speedy(length_type = u64)] pub Option<Cow<'a, BTreeMap<u16, Vec<char>>>>, #[speedy(length_type = u64_varint)] pub BTreeMap<bool, i64>, #[speedy(length = ..)] pub BTreeSet<u8>);
impl Model for S132<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, [u64]> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, str> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<Option<Cow<'static, BTreeMap<u16, Vec<char>>>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(with_lt(<BTreeMap<bool, i64> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<BTreeSet<u8> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Cow<'static, [u64]> = { gen_upto::<Cow<'static, [u64]>>(r, "u7") }; let t1: Cow<'static, str> = { gen_upto::<Cow<'static, str>>(r, "varint") }; let t2: Option<Cow<'static, BTreeMap<u16, Vec<char>>>> = { gen_upto::<Option<Cow<'static, BTreeMap<u16, Vec<char>>>>>(r, "u64") }; let t3: BTreeMap<bool, i64> = { gen_upto::<BTreeMap<bool, i64>>(r, "varint") }; let t4: BTreeSet<u8> = <BTreeSet<u8> as Model>::gen(r); S132(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S133<'a> { pub result: u8, #[speedy(varint)] pub rest: u64, pub count: u8, #[speedy(length = result / 2)] pub flags: Cow<'a, HashSet<u32>>, pub b: u32 }
impl Model for S133<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, HashSet<u32>> as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"div\",\"a\":{\"x\":\"f\",\"i\":1},\"b\":{\"x\":\"n\",\"n\":2}},\"nm\":\"flags\"}"), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.result.val(o); o.push(','); self.rest.val(o); o.push(','); self.count.val(o); o.push(','); self.flags.val(o); o.push(','); self.b.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: u8 = (r.below(24) as u8); let rest: u64 = <u64 as Model>::gen(r); let count: u8 = (r.below(24) as u8); let flags: Cow<'static, HashSet<u32>> = { let n = (result / 2) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <Cow<'static, HashSet<u32>> as GenN>::gen_n(r, n) }; let b: u32 = (r.below(24) as u32); S133 { result, rest, count, flags, b } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.result.borrows(f); self.rest.borrows(f); self.count.borrows(f); self.flags.borrows(f); self.b.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S134<'a> { #[speedy(length_type = u7)] pub rest: HashSet<u16>, pub r#type: u8, #[speedy(length = r#type)] pub name: &'a str, #[speedy(length = r#type)] pub slice: Cow<'a, HashSet<u32>>, #[speedy(length_type = u16)] pub out: BTreeMap<String, String> }
impl Model for S134<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<HashSet<u16> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"f\",\"i\":2},\"nm\":\"name\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, HashSet<u32>> as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"f\",\"i\":2},\"nm\":\"slice\"}"), false, false, &[]), fieldx(with_lt(<BTreeMap<String, String> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.rest.val(o); o.push(','); self.r#type.val(o); o.push(','); self.name.val(o); o.push(','); self.slice.val(o); o.push(','); self.out.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let rest: HashSet<u16> = { gen_upto::<HashSet<u16>>(r, "u7") }; let r#type: u8 = (r.below(24) as u8); let name: &'static str = { let n = (r#type) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <&'static str as GenN>::gen_n(r, n) }; let slice: Cow<'static, HashSet<u32>> = { let n = (r#type) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <Cow<'static, HashSet<u32>> as GenN>::gen_n(r, n) }; let out: BTreeMap<String, String> = { gen_upto::<BTreeMap<String, String>>(r, "u16") }; S134 { rest, r#type, name, slice, out } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.rest.borrows(f); self.r#type.borrows(f); self.name.borrows(f); self.slice.borrows(f); self.out.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S135<'a>(#[speedy(length_type = u64_varint)] pub &'a [u8], #[speedy(length_type = u64_varint)] pub Vec<NonZeroU32>, #[speedy(varint)] pub u64, #[speedy(length = ..)] pub Cow<'a, str>);
impl Model for S135<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static [u8] as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<Vec<NonZeroU32> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, str> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static [u8] = { gen_upto::<&'static [u8]>(r, "varint") }; let t1: Vec<NonZeroU32> = { gen_upto::<Vec<NonZeroU32>>(r, "varint") }; let t2: u64 = <u64 as Model>::gen(r); let t3: Cow<'static, str> = <Cow<'static, str> as Model>::gen(r); S135(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S136 { pub len: char, #[speedy(length_type = u64)] pub value: Vec<u8>, pub name: u8, #[speedy(varint)] pub kind: u64 }
impl Model for S136 {
    fn schema() -> String { struct_schema(&[fieldx(<char as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.len.val(o); o.push(','); self.value.val(o); o.push(','); self.name.val(o); o.push(','); self.kind.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: char = <char as Model>::gen(r); let value: Vec<u8> = { gen_upto::<Vec<u8>>(r, "u64") }; let name: u8 = (r.below(24) as u8); let kind: u64 = <u64 as Model>::gen(r); S136 { len, value, name, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); self.value.borrows(f); self.name.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S137<'a> { pub result: [u8; 2], #[speedy(length_type = u7)] pub a: Cow<'a, BTreeSet<u16>>, #[speedy(length_type = u64)] pub id: Cow<'a, BTreeMap<u16, u16>>, pub x: u8 }
impl Model for S137<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<[u8; 2] as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeSet<u16>> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeMap<u16, u16>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.result.val(o); o.push(','); self.a.val(o); o.push(','); self.id.val(o); o.push(','); self.x.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: [u8; 2] = <[u8; 2] as Model>::gen(r); let a: Cow<'static, BTreeSet<u16>> = { gen_upto::<Cow<'static, BTreeSet<u16>>>(r, "u7") }; let id: Cow<'static, BTreeMap<u16, u16>> = { gen_upto::<Cow<'static, BTreeMap<u16, u16>>>(r, "u64") }; let x: u8 = (r.below(24) as u8); S137 { result, a, id, x } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.result.borrows(f); self.a.borrows(f); self.id.borrows(f); self.x.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S138 { #[speedy(length_type = u16)] pub id: Option<Vec<Vec<u128>>>, pub rest: HashSet<u64> }
impl Model for S138 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<Vec<Vec<u128>>> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(<HashSet<u64> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.id.val(o); o.push(','); self.rest.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let id: Option<Vec<Vec<u128>>> = { gen_upto::<Option<Vec<Vec<u128>>>>(r, "u16") }; let rest: HashSet<u64> = <HashSet<u64> as Model>::gen(r); S138 { id, rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.id.borrows(f); self.rest.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct S139 { pub len: f64, pub bytes: u8, pub tag: f64, #[speedy(varint)] pub b: u64 }
impl Model for S139 {
    fn schema() -> String { struct_schema(&[fieldx(<f64 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<f64 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.len.val(o); o.push(','); self.bytes.val(o); o.push(','); self.tag.val(o); o.push(','); self.b.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: f64 = <f64 as Model>::gen(r); let bytes: u8 = (r.below(24) as u8); let tag: f64 = <f64 as Model>::gen(r); let b: u64 = <u64 as Model>::gen(r); S139 { len, bytes, tag, b } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); self.bytes.borrows(f); self.tag.borrows(f); self.b.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L140 { #[speedy(length_type = u7)] pub t1: Vec<u32> }
impl Model for L140 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<u32> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: Vec<u32> = { gen_upto::<Vec<u32>>(r, "u7") }; L140 { t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L141 { #[speedy(length_type = u7)] pub count: String }
impl Model for L141 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: String = { gen_upto::<String>(r, "u7") }; L141 { count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L142(#[speedy(length_type = u7)] pub BTreeMap<u8, u16>);
impl Model for L142 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<u8, u16> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: BTreeMap<u8, u16> = { gen_upto::<BTreeMap<u8, u16>>(r, "u7") }; L142(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L143 { #[speedy(length_type = u7)] pub y: HashSet<u16> }
impl Model for L143 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<HashSet<u16> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.y).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: HashSet<u16> = { gen_upto::<HashSet<u16>>(r, "u7") }; L143 { y } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.y.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L144<'a>(#[speedy(length_type = u7)] pub Cow<'a, [u32]>);
impl Model for L144<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, [u32]> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Cow<'static, [u32]> = { gen_upto::<Cow<'static, [u32]>>(r, "u7") }; L144(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L145 { #[speedy(length_type = u7)] pub name: Option<Vec<u8>> }
impl Model for L145 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<Vec<u8>> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.name).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: Option<Vec<u8>> = { gen_upto::<Option<Vec<u8>>>(r, "u7") }; L145 { name } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L146<'a> { #[speedy(length_type = u7)] pub t1: &'a str }
impl Model for L146<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: &'static str = { gen_upto::<&'static str>(r, "u7") }; L146 { t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L147(#[speedy(length_type = u7)] pub Vec<Option<u16>>);
impl Model for L147 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<Option<u16>> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<Option<u16>> = { gen_upto::<Vec<Option<u16>>>(r, "u7") }; L147(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L148 { #[speedy(length_type = u8)] pub value: BTreeMap<u8, u16> }
impl Model for L148 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<u8, u16> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.value).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let value: BTreeMap<u8, u16> = { gen_upto::<BTreeMap<u8, u16>>(r, "u8") }; L148 { value } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.value.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L149(#[speedy(length_type = u8)] pub HashSet<u16>);
impl Model for L149 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<HashSet<u16> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: HashSet<u16> = { gen_upto::<HashSet<u16>>(r, "u8") }; L149(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L150(#[speedy(length_type = u8)] pub Vec<Option<u16>>);
impl Model for L150 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<Option<u16>> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<Option<u16>> = { gen_upto::<Vec<Option<u16>>>(r, "u8") }; L150(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L151(#[speedy(length_type = u16)] pub Vec<u64>);
impl Model for L151 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<u64> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<u64> = { gen_upto::<Vec<u64>>(r, "u16") }; L151(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L152 { #[speedy(length_type = u16)] pub name: String }
impl Model for L152 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.name).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: String = { gen_upto::<String>(r, "u16") }; L152 { name } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L153(#[speedy(length_type = u16)] pub BTreeMap<u8, u16>);
impl Model for L153 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<u8, u16> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: BTreeMap<u8, u16> = { gen_upto::<BTreeMap<u8, u16>>(r, "u16") }; L153(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L154(#[speedy(length_type = u16)] pub HashSet<u16>);
impl Model for L154 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<HashSet<u16> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: HashSet<u16> = { gen_upto::<HashSet<u16>>(r, "u16") }; L154(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L155(#[speedy(length_type = u16)] pub Option<Vec<u8>>);
impl Model for L155 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<Vec<u8>> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<Vec<u8>> = { gen_upto::<Option<Vec<u8>>>(r, "u16") }; L155(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L156 { #[speedy(length_type = u16)] pub b: Vec<Option<u16>> }
impl Model for L156 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<Option<u16>> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.b).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let b: Vec<Option<u16>> = { gen_upto::<Vec<Option<u16>>>(r, "u16") }; L156 { b } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.b.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L157(#[speedy(length_type = u32)] pub Vec<i128>);
impl Model for L157 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<i128> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<i128> = { gen_upto::<Vec<i128>>(r, "u32") }; L157(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L158(#[speedy(length_type = u32)] pub BTreeMap<u8, u16>);
impl Model for L158 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<u8, u16> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: BTreeMap<u8, u16> = { gen_upto::<BTreeMap<u8, u16>>(r, "u32") }; L158(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L159(#[speedy(length_type = u32)] pub HashSet<u16>);
impl Model for L159 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<HashSet<u16> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: HashSet<u16> = { gen_upto::<HashSet<u16>>(r, "u32") }; L159(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L160<'a> { #[speedy(length_type = u32)] pub out: Cow<'a, [u32]> }
impl Model for L160<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, [u32]> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.out).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: Cow<'static, [u32]> = { gen_upto::<Cow<'static, [u32]>>(r, "u32") }; L160 { out } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.out.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L161<'a> { #[speedy(length_type = u32)] pub id: &'a str }
impl Model for L161<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.id).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let id: &'static str = { gen_upto::<&'static str>(r, "u32") }; L161 { id } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.id.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L162 { #[speedy(length_type = u64)] pub reader: BTreeMap<u8, u16> }
impl Model for L162 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<u8, u16> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.reader).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let reader: BTreeMap<u8, u16> = { gen_upto::<BTreeMap<u8, u16>>(r, "u64") }; L162 { reader } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.reader.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L163 { #[speedy(length_type = u64)] pub error: HashSet<u16> }
impl Model for L163 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<HashSet<u16> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.error).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let error: HashSet<u16> = { gen_upto::<HashSet<u16>>(r, "u64") }; L163 { error } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.error.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L164(#[speedy(length_type = u64)] pub Option<Vec<u8>>);
impl Model for L164 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<Vec<u8>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<Vec<u8>> = { gen_upto::<Option<Vec<u8>>>(r, "u64") }; L164(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L165<'a>(#[speedy(length_type = u64)] pub &'a [u8]);
impl Model for L165<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static [u8] as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static [u8] = { gen_upto::<&'static [u8]>(r, "u64") }; L165(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L166 { #[speedy(length_type = u64)] pub rest: Vec<Option<u16>> }
impl Model for L166 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<Option<u16>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.rest).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let rest: Vec<Option<u16>> = { gen_upto::<Vec<Option<u16>>>(r, "u64") }; L166 { rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.rest.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L167(#[speedy(length_type = u64_varint)] pub Vec<u8>);
impl Model for L167 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<u8> = { gen_upto::<Vec<u8>>(r, "varint") }; L167(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L168 { #[speedy(length_type = u64_varint)] pub length: String }
impl Model for L168 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.length).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: String = { gen_upto::<String>(r, "varint") }; L168 { length } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L169(#[speedy(length_type = u64_varint)] pub BTreeMap<u8, u16>);
impl Model for L169 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeMap<u8, u16> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: BTreeMap<u8, u16> = { gen_upto::<BTreeMap<u8, u16>>(r, "varint") }; L169(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L170 { #[speedy(length_type = u64_varint)] pub count: HashSet<u16> }
impl Model for L170 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<HashSet<u16> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: HashSet<u16> = { gen_upto::<HashSet<u16>>(r, "varint") }; L170 { count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L171 { #[speedy(length_type = u64_varint)] pub flags: Option<Vec<u8>> }
impl Model for L171 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<Vec<u8>> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.flags).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let flags: Option<Vec<u8>> = { gen_upto::<Option<Vec<u8>>>(r, "varint") }; L171 { flags } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.flags.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L172<'a> { #[speedy(length_type = u64_varint)] pub id: &'a str }
impl Model for L172<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.id).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let id: &'static str = { gen_upto::<&'static str>(r, "varint") }; L172 { id } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.id.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct L173(#[speedy(length_type = u64_varint)] pub Vec<Option<u16>>);
impl Model for L173 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<Option<u16>> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<Option<u16>> = { gen_upto::<Vec<Option<u16>>>(r, "varint") }; L173(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u7)] pub enum E174 { #[speedy(tag = 1)] V0 { rest: i64, y: usize }, V1 { len: u128 }, #[speedy(tag = 127)] V2 }
impl Model for E174 {
    fn schema() -> String { enum_schema("u7", false, &[(1, vec![fieldx(<i64 as Model>::schema(), false, false, &[]), fieldx(<usize as Model>::schema(), false, false, &[])]), (2, vec![fieldx(<u128 as Model>::schema(), false, false, &[])]), (127, vec![])]) }
    fn val(&self, o: &mut String) { match self { E174::V0 { rest: f_0, y: f_1 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E174::V1 { len: f_0 } => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E174::V2 => { o.push_str("[3,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let rest: i64 = <i64 as Model>::gen(r); let y: usize = <usize as Model>::gen(r); E174::V0 { rest, y } } 1 => { let len: u128 = <u128 as Model>::gen(r); E174::V1 { len } } 2 => {  E174::V2 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E174::V0 { rest: f_0, y: f_1 } => { f_0.borrows(f); f_1.borrows(f); } E174::V1 { len: f_0 } => { f_0.borrows(f); } E174::V2 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u7)] pub enum E175 { #[speedy(tag = 0)] V0(Endianness) }
impl Model for E175 {
    fn schema() -> String { enum_schema("u7", false, &[(0, vec![fieldx(<Endianness as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E175::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let t0: Endianness = <Endianness as Model>::gen(r); E175::V0(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E175::V0(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u7)] pub enum E176 { #[speedy(tag = 54)] V0(u16), #[speedy(tag = 115)] V1(Endianness, S6), #[speedy(tag = 125)] V2, #[speedy(tag = 49)] V3 { y: i8 }, V4(Vec<Vec<u64>>, f32, HashMap<i16, u32>), V5(f64) }
impl Model for E176 {
    fn schema() -> String { enum_schema("u7", false, &[(54, vec![fieldx(<u16 as Model>::schema(), false, false, &[])]), (115, vec![fieldx(<Endianness as Model>::schema(), false, false, &[]), fieldx(<S6 as Model>::schema(), false, false, &[])]), (125, vec![]), (49, vec![fieldx(<i8 as Model>::schema(), false, false, &[])]), (50, vec![fieldx(<Vec<Vec<u64>> as Model>::schema(), false, false, &[]), fieldx(<f32 as Model>::schema(), false, false, &[]), fieldx(<HashMap<i16, u32> as Model>::schema(), false, false, &[])]), (51, vec![fieldx(<f64 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E176::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E176::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E176::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E176::V3 { y: f_0 } => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } E176::V4(f_0, f_1, f_2) => { o.push_str("[5,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E176::V5(f_0) => { o.push_str("[6,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let t0: u16 = <u16 as Model>::gen(r); E176::V0(t0) } 1 => { let t0: Endianness = <Endianness as Model>::gen(r); let t1: S6 = <S6 as Model>::gen(r); E176::V1(t0, t1) } 2 => {  E176::V2 } 3 => { let y: i8 = <i8 as Model>::gen(r); E176::V3 { y } } 4 => { let t0: Vec<Vec<u64>> = <Vec<Vec<u64>> as Model>::gen(r); let t1: f32 = <f32 as Model>::gen(r); let t2: HashMap<i16, u32> = <HashMap<i16, u32> as Model>::gen(r); E176::V4(t0, t1, t2) } 5 => { let t0: f64 = <f64 as Model>::gen(r); E176::V5(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E176::V0(f_0) => { f_0.borrows(f); } E176::V1(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E176::V2 => {  } E176::V3 { y: f_0 } => { f_0.borrows(f); } E176::V4(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E176::V5(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u7)] pub enum E177 { V0 = 16, V1, V2, V3 = 42, V4, V5 = 64 }
impl Model for E177 {
    fn schema() -> String { enum_schema("u7", false, &[(16, vec![]), (17, vec![]), (18, vec![]), (42, vec![]), (43, vec![]), (64, vec![])]) }
    fn val(&self, o: &mut String) { match self { E177::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E177::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E177::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E177::V3 => { o.push_str("[4,[");  o.push_str("]]"); } E177::V4 => { o.push_str("[5,[");  o.push_str("]]"); } E177::V5 => { o.push_str("[6,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => {  E177::V0 } 1 => {  E177::V1 } 2 => {  E177::V2 } 3 => {  E177::V3 } 4 => {  E177::V4 } 5 => {  E177::V5 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E177::V0 => {  } E177::V1 => {  } E177::V2 => {  } E177::V3 => {  } E177::V4 => {  } E177::V5 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E178 { V0(u128) }
impl Model for E178 {
    fn schema() -> String { enum_schema("u8", false, &[(0, vec![fieldx(<u128 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E178::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let t0: u128 = <u128 as Model>::gen(r); E178::V0(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E178::V0(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E179 { V0 { tag: (f32,), r#type: BTreeSet<u16>, count: HashSet<u8> }, V1((String,)), #[speedy(tag = 3)] V2(Vec<(i16, u64,)>), #[speedy(tag = 254)] V3 }
impl Model for E179 {
    fn schema() -> String { enum_schema("u8", false, &[(0, vec![fieldx(<(f32,) as Model>::schema(), false, false, &[]), fieldx(<BTreeSet<u16> as Model>::schema(), false, false, &[]), fieldx(<HashSet<u8> as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<(String,) as Model>::schema(), false, false, &[])]), (3, vec![fieldx(<Vec<(i16, u64,)> as Model>::schema(), false, false, &[])]), (254, vec![])]) }
    fn val(&self, o: &mut String) { match self { E179::V0 { tag: f_0, r#type: f_1, count: f_2 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E179::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E179::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E179::V3 => { o.push_str("[4,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let tag: (f32,) = <(f32,) as Model>::gen(r); let r#type: BTreeSet<u16> = <BTreeSet<u16> as Model>::gen(r); let count: HashSet<u8> = <HashSet<u8> as Model>::gen(r); E179::V0 { tag, r#type, count } } 1 => { let t0: (String,) = <(String,) as Model>::gen(r); E179::V1(t0) } 2 => { let t0: Vec<(i16, u64,)> = <Vec<(i16, u64,)> as Model>::gen(r); E179::V2(t0) } 3 => {  E179::V3 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E179::V0 { tag: f_0, r#type: f_1, count: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E179::V1(f_0) => { f_0.borrows(f); } E179::V2(f_0) => { f_0.borrows(f); } E179::V3 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E180<'a> { V0(Option<Option<u64>>, Cow<'a, str>, u64), #[speedy(tag = 29)] V1(char), V2 { len: u128 } }
impl Model for E180<'static> {
    fn schema() -> String { enum_schema("u8", false, &[(0, vec![fieldx(<Option<Option<u64>> as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, str> as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]), (29, vec![fieldx(<char as Model>::schema(), false, false, &[])]), (30, vec![fieldx(<u128 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E180::V0(f_0, f_1, f_2) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E180::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E180::V2 { len: f_0 } => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let t0: Option<Option<u64>> = <Option<Option<u64>> as Model>::gen(r); let t1: Cow<'static, str> = <Cow<'static, str> as Model>::gen(r); let t2: u64 = <u64 as Model>::gen(r); E180::V0(t0, t1, t2) } 1 => { let t0: char = <char as Model>::gen(r); E180::V1(t0) } 2 => { let len: u128 = <u128 as Model>::gen(r); E180::V2 { len } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E180::V0(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E180::V1(f_0) => { f_0.borrows(f); } E180::V2 { len: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u8)] pub enum E181 { V0 = 0x3, V1 = 4, V2 = 0x58, V3 = 146, #[speedy(tag = 239)] V4 = 255, V5 }
impl Model for E181 {
    fn schema() -> String { enum_schema("u8", false, &[(3, vec![]), (4, vec![]), (88, vec![]), (146, vec![]), (239, vec![]), (240, vec![])]) }
    fn val(&self, o: &mut String) { match self { E181::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E181::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E181::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E181::V3 => { o.push_str("[4,[");  o.push_str("]]"); } E181::V4 => { o.push_str("[5,[");  o.push_str("]]"); } E181::V5 => { o.push_str("[6,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => {  E181::V0 } 1 => {  E181::V1 } 2 => {  E181::V2 } 3 => {  E181::V3 } 4 => {  E181::V4 } 5 => {  E181::V5 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E181::V0 => {  } E181::V1 => {  } E181::V2 => {  } E181::V3 => {  } E181::V4 => {  } E181::V5 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16)] pub enum E182 { #[speedy(tag = 27245)] V0, #[speedy(tag = 16384)] V1(i128, Vec<S56>, Option<String>), #[speedy(tag = 0)] V2(Option<BTreeMap<i16, bool>>), V3(Option<u16>, u128, String) }
impl Model for E182 {
    fn schema() -> String { enum_schema("u16", false, &[(27245, vec![]), (16384, vec![fieldx(<i128 as Model>::schema(), false, false, &[]), fieldx(<Vec<S56> as Model>::schema(), false, false, &[]), fieldx(<Option<String> as Model>::schema(), false, false, &[])]), (0, vec![fieldx(<Option<BTreeMap<i16, bool>> as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<Option<u16> as Model>::schema(), false, false, &[]), fieldx(<u128 as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E182::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E182::V1(f_0, f_1, f_2) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E182::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E182::V3(f_0, f_1, f_2) => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => {  E182::V0 } 1 => { let t0: i128 = <i128 as Model>::gen(r); let t1: Vec<S56> = <Vec<S56> as Model>::gen(r); let t2: Option<String> = <Option<String> as Model>::gen(r); E182::V1(t0, t1, t2) } 2 => { let t0: Option<BTreeMap<i16, bool>> = <Option<BTreeMap<i16, bool>> as Model>::gen(r); E182::V2(t0) } 3 => { let t0: Option<u16> = <Option<u16> as Model>::gen(r); let t1: u128 = <u128 as Model>::gen(r); let t2: String = <String as Model>::gen(r); E182::V3(t0, t1, t2) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E182::V0 => {  } E182::V1(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E182::V2(f_0) => { f_0.borrows(f); } E182::V3(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16)] pub enum E183 { V0(i128), V1(u64), #[speedy(tag = 45220)] V2(BTreeSet<bool>, Option<String>), V3 }
impl Model for E183 {
    fn schema() -> String { enum_schema("u16", false, &[(0, vec![fieldx(<i128 as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<u64 as Model>::schema(), false, false, &[])]), (45220, vec![fieldx(<BTreeSet<bool> as Model>::schema(), false, false, &[]), fieldx(<Option<String> as Model>::schema(), false, false, &[])]), (45221, vec![])]) }
    fn val(&self, o: &mut String) { match self { E183::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E183::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E183::V2(f_0, f_1) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E183::V3 => { o.push_str("[4,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let t0: i128 = <i128 as Model>::gen(r); E183::V0(t0) } 1 => { let t0: u64 = <u64 as Model>::gen(r); E183::V1(t0) } 2 => { let t0: BTreeSet<bool> = <BTreeSet<bool> as Model>::gen(r); let t1: Option<String> = <Option<String> as Model>::gen(r); E183::V2(t0, t1) } 3 => {  E183::V3 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E183::V0(f_0) => { f_0.borrows(f); } E183::V1(f_0) => { f_0.borrows(f); } E183::V2(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E183::V3 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16)] pub enum E184 { V0(Option<BTreeMap<bool, i8>>), #[speedy(tag = 209)] V1, V2(f64, E33, usize) }
impl Model for E184 {
    fn schema() -> String { enum_schema("u16", false, &[(0, vec![fieldx(<Option<BTreeMap<bool, i8>> as Model>::schema(), false, false, &[])]), (209, vec![]), (210, vec![fieldx(<f64 as Model>::schema(), false, false, &[]), fieldx(<E33 as Model>::schema(), false, false, &[]), fieldx(<usize as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E184::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E184::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E184::V2(f_0, f_1, f_2) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let t0: Option<BTreeMap<bool, i8>> = <Option<BTreeMap<bool, i8>> as Model>::gen(r); E184::V0(t0) } 1 => {  E184::V1 } 2 => { let t0: f64 = <f64 as Model>::gen(r); let t1: E33 = <E33 as Model>::gen(r); let t2: usize = <usize as Model>::gen(r); E184::V2(t0, t1, t2) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E184::V0(f_0) => { f_0.borrows(f); } E184::V1 => {  } E184::V2(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u16)] pub enum E185 { V0, V1 = 16463, V2, V3 }
impl Model for E185 {
    fn schema() -> String { enum_schema("u16", false, &[(0, vec![]), (16463, vec![]), (16464, vec![]), (16465, vec![])]) }
    fn val(&self, o: &mut String) { match self { E185::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E185::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E185::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E185::V3 => { o.push_str("[4,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => {  E185::V0 } 1 => {  E185::V1 } 2 => {  E185::V2 } 3 => {  E185::V3 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E185::V0 => {  } E185::V1 => {  } E185::V2 => {  } E185::V3 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u32)] pub enum E186<'a> { V0(u16, Cow<'a, [u16]>, (u16,)), #[speedy(tag = 8)] V1 }
impl Model for E186<'static> {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, [u16]> as Model>::schema(), false, false, &[]), fieldx(<(u16,) as Model>::schema(), false, false, &[])]), (8, vec![])]) }
    fn val(&self, o: &mut String) { match self { E186::V0(f_0, f_1, f_2) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E186::V1 => { o.push_str("[2,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => { let t0: u16 = <u16 as Model>::gen(r); let t1: Cow<'static, [u16]> = <Cow<'static, [u16]> as Model>::gen(r); let t2: (u16,) = <(u16,) as Model>::gen(r); E186::V0(t0, t1, t2) } 1 => {  E186::V1 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E186::V0(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E186::V1 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u32)] pub enum E187<'a> { #[speedy(tag = 4294967293)] V0 { id: HashMap<char, HashSet<u32>> }, #[speedy(tag = 2770186552)] V1, V2((i64,)), #[speedy(tag = 2873489473)] V3(Cow<'a, HashSet<u16>>), V4, #[speedy(tag = 141)] V5(bool) }
impl Model for E187<'static> {
    fn schema() -> String { enum_schema("u32", false, &[(4294967293, vec![fieldx(<HashMap<char, HashSet<u32>> as Model>::schema(), false, false, &[])]), (2770186552, vec![]), (2770186553, vec![fieldx(<(i64,) as Model>::schema(), false, false, &[])]), (2873489473, vec![fieldx(<Cow<'static, HashSet<u16>> as Model>::schema(), false, false, &[])]), (2873489474, vec![]), (141, vec![fieldx(<bool as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E187::V0 { id: f_0 } => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E187::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E187::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E187::V3(f_0) => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } E187::V4 => { o.push_str("[5,[");  o.push_str("]]"); } E187::V5(f_0) => { o.push_str("[6,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let id: HashMap<char, HashSet<u32>> = <HashMap<char, HashSet<u32>> as Model>::gen(r); E187::V0 { id } } 1 => {  E187::V1 } 2 => { let t0: (i64,) = <(i64,) as Model>::gen(r); E187::V2(t0) } 3 => { let t0: Cow<'static, HashSet<u16>> = <Cow<'static, HashSet<u16>> as Model>::gen(r); E187::V3(t0) } 4 => {  E187::V4 } 5 => { let t0: bool = <bool as Model>::gen(r); E187::V5(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E187::V0 { id: f_0 } => { f_0.borrows(f); } E187::V1 => {  } E187::V2(f_0) => { f_0.borrows(f); } E187::V3(f_0) => { f_0.borrows(f); } E187::V4 => {  } E187::V5(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u32)] pub enum E188 { #[speedy(tag = 65536)] V0(char) }
impl Model for E188 {
    fn schema() -> String { enum_schema("u32", false, &[(65536, vec![fieldx(<char as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E188::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let t0: char = <char as Model>::gen(r); E188::V0(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E188::V0(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u32)] pub enum E189 { V0 = 0xfffffffe, V1 = 0x0, V2, V3, V4, V5 }
impl Model for E189 {
    fn schema() -> String { enum_schema("u32", false, &[(4294967294, vec![]), (0, vec![]), (1, vec![]), (2, vec![]), (3, vec![]), (4, vec![])]) }
    fn val(&self, o: &mut String) { match self { E189::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E189::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E189::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E189::V3 => { o.push_str("[4,[");  o.push_str("]]"); } E189::V4 => { o.push_str("[5,[");  o.push_str("]]"); } E189::V5 => { o.push_str("[6,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => {  E189::V0 } 1 => {  E189::V1 } 2 => {  E189::V2 } 3 => {  E189::V3 } 4 => {  E189::V4 } 5 => {  E189::V5 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E189::V0 => {  } E189::V1 => {  } E189::V2 => {  } E189::V3 => {  } E189::V4 => {  } E189::V5 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum E190<'a> { #[speedy(tag = 64)] V0(Cow<'a, BTreeMap<u8, u32>>), V1 { reader: i8, error: HashSet<String>, r#type: HashMap<String, u128> }, V2(f64, String) }
impl Model for E190<'static> {
    fn schema() -> String { enum_schema("u64", false, &[(64, vec![fieldx(<Cow<'static, BTreeMap<u8, u32>> as Model>::schema(), false, false, &[])]), (65, vec![fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<HashSet<String> as Model>::schema(), false, false, &[]), fieldx(<HashMap<String, u128> as Model>::schema(), false, false, &[])]), (66, vec![fieldx(<f64 as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E190::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E190::V1 { reader: f_0, error: f_1, r#type: f_2 } => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E190::V2(f_0, f_1) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let t0: Cow<'static, BTreeMap<u8, u32>> = <Cow<'static, BTreeMap<u8, u32>> as Model>::gen(r); E190::V0(t0) } 1 => { let reader: i8 = <i8 as Model>::gen(r); let error: HashSet<String> = <HashSet<String> as Model>::gen(r); let r#type: HashMap<String, u128> = <HashMap<String, u128> as Model>::gen(r); E190::V1 { reader, error, r#type } } 2 => { let t0: f64 = <f64 as Model>::gen(r); let t1: String = <String as Model>::gen(r); E190::V2(t0, t1) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E190::V0(f_0) => { f_0.borrows(f); } E190::V1 { reader: f_0, error: f_1, r#type: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E190::V2(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum E191 { #[speedy(tag = 72057594037927936)] V0(BTreeSet<String>), V1(u64) }
impl Model for E191 {
    fn schema() -> String { enum_schema("u64", false, &[(72057594037927936, vec![fieldx(<BTreeSet<String> as Model>::schema(), false, false, &[])]), (72057594037927937, vec![fieldx(<u64 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E191::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E191::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => { let t0: BTreeSet<String> = <BTreeSet<String> as Model>::gen(r); E191::V0(t0) } 1 => { let t0: u64 = <u64 as Model>::gen(r); E191::V1(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E191::V0(f_0) => { f_0.borrows(f); } E191::V1(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum E192 { V0, #[speedy(tag = 36028797018963968)] V1(f64), #[speedy(tag = 254)] V2 }
impl Model for E192 {
    fn schema() -> String { enum_schema("u64", false, &[(0, vec![]), (36028797018963968, vec![fieldx(<f64 as Model>::schema(), false, false, &[])]), (254, vec![])]) }
    fn val(&self, o: &mut String) { match self { E192::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E192::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E192::V2 => { o.push_str("[3,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => {  E192::V0 } 1 => { let t0: f64 = <f64 as Model>::gen(r); E192::V1(t0) } 2 => {  E192::V2 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E192::V0 => {  } E192::V1(f_0) => { f_0.borrows(f); } E192::V2 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u64)] pub enum E193 { V0 = 0xf9, V1, V2 }
impl Model for E193 {
    fn schema() -> String { enum_schema("u64", false, &[(249, vec![]), (250, vec![]), (251, vec![])]) }
    fn val(&self, o: &mut String) { match self { E193::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E193::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E193::V2 => { o.push_str("[3,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => {  E193::V0 } 1 => {  E193::V1 } 2 => {  E193::V2 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E193::V0 => {  } E193::V1 => {  } E193::V2 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E194 { #[speedy(tag = 129)] V0(i64), #[speedy(tag = 131)] V1(Option<Vec<i32>>), V2(Vec<(NonZeroU32,)>), V3 { y: String } }
impl Model for E194 {
    fn schema() -> String { enum_schema("varint", false, &[(129, vec![fieldx(<i64 as Model>::schema(), false, false, &[])]), (131, vec![fieldx(<Option<Vec<i32>> as Model>::schema(), false, false, &[])]), (132, vec![fieldx(<Vec<(NonZeroU32,)> as Model>::schema(), false, false, &[])]), (133, vec![fieldx(<String as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E194::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E194::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E194::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E194::V3 { y: f_0 } => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let t0: i64 = <i64 as Model>::gen(r); E194::V0(t0) } 1 => { let t0: Option<Vec<i32>> = <Option<Vec<i32>> as Model>::gen(r); E194::V1(t0) } 2 => { let t0: Vec<(NonZeroU32,)> = <Vec<(NonZeroU32,)> as Model>::gen(r); E194::V2(t0) } 3 => { let y: String = <String as Model>::gen(r); E194::V3 { y } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E194::V0(f_0) => { f_0.borrows(f); } E194::V1(f_0) => { f_0.borrows(f); } E194::V2(f_0) => { f_0.borrows(f); } E194::V3 { y: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E195 { V0 { r#type: [HashMap<u64, bool>; 5], y: (Vec<u32>,) }, #[speedy(tag = 6761674099873020073)] V1 { key: [i16; 2] }, #[speedy(tag = 13285461711848655820)] V2((u8, u64,), u8, Option<String>) }
impl Model for E195 {
    fn schema() -> String { enum_schema("varint", false, &[(0, vec![fieldx(<[HashMap<u64, bool>; 5] as Model>::schema(), false, false, &[]), fieldx(<(Vec<u32>,) as Model>::schema(), false, false, &[])]), (6761674099873020073, vec![fieldx(<[i16; 2] as Model>::schema(), false, false, &[])]), (13285461711848655820, vec![fieldx(<(u8, u64,) as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<Option<String> as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E195::V0 { r#type: f_0, y: f_1 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E195::V1 { key: f_0 } => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E195::V2(f_0, f_1, f_2) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let r#type: [HashMap<u64, bool>; 5] = <[HashMap<u64, bool>; 5] as Model>::gen(r); let y: (Vec<u32>,) = <(Vec<u32>,) as Model>::gen(r); E195::V0 { r#type, y } } 1 => { let key: [i16; 2] = <[i16; 2] as Model>::gen(r); E195::V1 { key } } 2 => { let t0: (u8, u64,) = <(u8, u64,) as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); let t2: Option<String> = <Option<String> as Model>::gen(r); E195::V2(t0, t1, t2) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E195::V0 { r#type: f_0, y: f_1 } => { f_0.borrows(f); f_1.borrows(f); } E195::V1 { key: f_0 } => { f_0.borrows(f); } E195::V2(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E196 { V0 }
impl Model for E196 {
    fn schema() -> String { enum_schema("varint", false, &[(0, vec![])]) }
    fn val(&self, o: &mut String) { match self { E196::V0 => { o.push_str("[1,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => {  E196::V0 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E196::V0 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E197 { V0, V1 }
impl Model for E197 {
    fn schema() -> String { enum_schema("varint", false, &[(0, vec![]), (1, vec![])]) }
    fn val(&self, o: &mut String) { match self { E197::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E197::V1 => { o.push_str("[2,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => {  E197::V0 } 1 => {  E197::V1 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E197::V0 => {  } E197::V1 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u64)] pub enum E198 { #[speedy(tag = 18446744073709551615)] V0, V1 = 0x1, V2, #[speedy(tag = 2411674412776668497)] V3 = 0x800000000 }
impl Model for E198 {
    fn schema() -> String { enum_schema("u64", false, &[(18446744073709551615, vec![]), (1, vec![]), (2, vec![]), (2411674412776668497, vec![])]) }
    fn val(&self, o: &mut String) { match self { E198::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E198::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E198::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E198::V3 => { o.push_str("[4,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => {  E198::V0 } 1 => {  E198::V1 } 2 => {  E198::V2 } 3 => {  E198::V3 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E198::V0 => {  } E198::V1 => {  } E198::V2 => {  } E198::V3 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u8)] pub enum E199 { V0, V1 = 250 }
impl Model for E199 {
    fn schema() -> String { enum_schema("u8", false, &[(0, vec![]), (250, vec![])]) }
    fn val(&self, o: &mut String) { match self { E199::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E199::V1 => { o.push_str("[2,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => {  E199::V0 } 1 => {  E199::V1 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E199::V0 => {  } E199::V1 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E200 { V0, V1 }
impl Model for E200 {
    fn schema() -> String { enum_schema("u8", false, &[(0, vec![]), (1, vec![])]) }
    fn val(&self, o: &mut String) { match self { E200::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E200::V1 => { o.push_str("[2,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => {  E200::V0 } 1 => {  E200::V1 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E200::V0 => {  } E200::V1 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(u64)] #[speedy(tag_type = u7)] pub enum E201 { V0 = 0x5f, V1, V2, V3, V4 = 30, V5 = 0x2e }
impl Model for E201 {
    fn schema() -> String { enum_schema("u7", false, &[(95, vec![]), (96, vec![]), (97, vec![]), (98, vec![]), (30, vec![]), (46, vec![])]) }
    fn val(&self, o: &mut String) { match self { E201::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E201::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E201::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E201::V3 => { o.push_str("[4,[");  o.push_str("]]"); } E201::V4 => { o.push_str("[5,[");  o.push_str("]]"); } E201::V5 => { o.push_str("[6,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => {  E201::V0 } 1 => {  E201::V1 } 2 => {  E201::V2 } 3 => {  E201::V3 } 4 => {  E201::V4 } 5 => {  E201::V5 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E201::V0 => {  } E201::V1 => {  } E201::V2 => {  } E201::V3 => {  } E201::V4 => {  } E201::V5 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u32)] pub enum E202<'a> { #[speedy(tag = 4067664922)] V0 { #[speedy(length_type = u64_varint)] x: Vec<[char; 0]>, #[speedy(length_type = u16)] id: HashMap<String, Option<f32>>, #[speedy(length = ..)] name: Cow<'a, BTreeMap<u16, i8>> }, V1(#[speedy(default_on_eof)] #[speedy(constant_prefix = false)] Vec<String>), V2 { #[speedy(constant_prefix = "ab\u{e9}", length_type = u64_varint)] result: &'a str, #[speedy(varint)] data: u64, #[speedy(default_on_eof, length = ..)] size: Cow<'a, HashSet<u32>> } }
impl Model for E202<'static> {
    fn schema() -> String { enum_schema("u32", false, &[(4067664922, vec![fieldx(with_lt(<Vec<[char; 0]> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<HashMap<String, Option<f32>> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeMap<u16, i8>> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]), (4067664923, vec![fieldx(<Vec<String> as Model>::schema(), true, false, &[0])]), (4067664924, vec![fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[97, 98, 195, 169]), fieldx(varint_schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, HashSet<u32>> as Model>::schema(), "{\"l\":\"eof\"}"), true, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E202::V0 { x: f_0, id: f_1, name: f_2 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E202::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E202::V2 { result: f_0, data: f_1, size: f_2 } => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let x: Vec<[char; 0]> = { gen_upto::<Vec<[char; 0]>>(r, "varint") }; let id: HashMap<String, Option<f32>> = { gen_upto::<HashMap<String, Option<f32>>>(r, "u16") }; let name: Cow<'static, BTreeMap<u16, i8>> = <Cow<'static, BTreeMap<u16, i8>> as Model>::gen(r); E202::V0 { x, id, name } } 1 => { let t0: Vec<String> = <Vec<String> as Model>::gen(r); E202::V1(t0) } 2 => { let result: &'static str = { gen_upto::<&'static str>(r, "varint") }; let data: u64 = <u64 as Model>::gen(r); let size: Cow<'static, HashSet<u32>> = <Cow<'static, HashSet<u32>> as Model>::gen(r); E202::V2 { result, data, size } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E202::V0 { x: f_0, id: f_1, name: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E202::V1(f_0) => { f_0.borrows(f); } E202::V2 { result: f_0, data: f_1, size: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16)] pub enum E203 { #[speedy(tag = 18386)] V0 { #[speedy(default_on_eof, length_type = u7)] reader: Option<String> }, #[speedy(tag = 2436)] V1(i128, #[speedy(length_type = u64_varint, constant_prefix = -3i8)] HashSet<char>, Box<i32>), V2, #[speedy(tag = 2)] V3(#[speedy(default_on_eof)] #[speedy(length = ..)] #[speedy(constant_prefix = b'Z')] String) }
impl Model for E203 {
    fn schema() -> String { enum_schema("u16", false, &[(18386, vec![fieldx(with_lt(<Option<String> as Model>::schema(), "{\"l\":\"u7\"}"), true, false, &[])]), (2436, vec![fieldx(<i128 as Model>::schema(), false, false, &[]), fieldx(with_lt(<HashSet<char> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[253]), fieldx(<Box<i32> as Model>::schema(), false, false, &[])]), (2437, vec![]), (2, vec![fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"eof\"}"), true, false, &[90])])]) }
    fn val(&self, o: &mut String) { match self { E203::V0 { reader: f_0 } => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E203::V1(f_0, f_1, f_2) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E203::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E203::V3(f_0) => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let reader: Option<String> = { gen_upto::<Option<String>>(r, "u7") }; E203::V0 { reader } } 1 => { let t0: i128 = <i128 as Model>::gen(r); let t1: HashSet<char> = { gen_upto::<HashSet<char>>(r, "varint") }; let t2: Box<i32> = <Box<i32> as Model>::gen(r); E203::V1(t0, t1, t2) } 2 => {  E203::V2 } 3 => { let t0: String = <String as Model>::gen(r); E203::V3(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E203::V0 { reader: f_0 } => { f_0.borrows(f); } E203::V1(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E203::V2 => {  } E203::V3(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u7)] pub enum E204 { V0 { #[speedy(constant_prefix = -128i8)] len: u8, bytes: u8 }, V1, #[speedy(tag = 20)] V2(#[speedy(length_type = u16)] HashSet<String>, #[speedy(constant_prefix = 'x', varint)] u64), #[speedy(tag = 31)] V3(#[speedy(default_on_eof)] u16) }
impl Model for E204 {
    fn schema() -> String { enum_schema("u7", false, &[(0, vec![fieldx(<u8 as Model>::schema(), false, false, &[128]), fieldx(<u8 as Model>::schema(), false, false, &[])]), (1, vec![]), (20, vec![fieldx(with_lt(<HashSet<String> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(varint_schema(), false, false, &[120])]), (31, vec![fieldx(<u16 as Model>::schema(), true, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E204::V0 { len: f_0, bytes: f_1 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E204::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E204::V2(f_0, f_1) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E204::V3(f_0) => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let len: u8 = (r.below(24) as u8); let bytes: u8 = <u8 as Model>::gen(r); E204::V0 { len, bytes } } 1 => {  E204::V1 } 2 => { let t0: HashSet<String> = { gen_upto::<HashSet<String>>(r, "u16") }; let t1: u64 = <u64 as Model>::gen(r); E204::V2(t0, t1) } 3 => { let t0: u16 = (r.below(24) as u16); E204::V3(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E204::V0 { len: f_0, bytes: f_1 } => { f_0.borrows(f); f_1.borrows(f); } E204::V1 => {  } E204::V2(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E204::V3(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E205 { #[speedy(tag = 1304137122528856313)] V0(f64, #[speedy(default_on_eof)] u8) }
impl Model for E205 {
    fn schema() -> String { enum_schema("varint", false, &[(1304137122528856313, vec![fieldx(<f64 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), true, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E205::V0(f_0, f_1) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let t0: f64 = <f64 as Model>::gen(r); let t1: u8 = (r.below(24) as u8); E205::V0(t0, t1) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E205::V0(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub enum E206 { #[speedy(tag = 2097152)] V0(#[speedy(length = ..)] Vec<u64>), #[speedy(tag = 2147483648)] V1(#[speedy(default_on_eof)] u8), V2(#[speedy(length = ..)] #[speedy(default_on_eof)] String), #[speedy(tag = 2891726030)] V3 { #[speedy(default_on_eof, constant_prefix = b"\0\xff\0")] y: u8 } }
impl Model for E206 {
    fn schema() -> String { enum_schema("u32", false, &[(2097152, vec![fieldx(with_lt(<Vec<u64> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]), (2147483648, vec![fieldx(<u8 as Model>::schema(), true, false, &[])]), (2147483649, vec![fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"eof\"}"), true, false, &[])]), (2891726030, vec![fieldx(<u8 as Model>::schema(), true, false, &[0, 255, 0])])]) }
    fn val(&self, o: &mut String) { match self { E206::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E206::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E206::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E206::V3 { y: f_0 } => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let t0: Vec<u64> = <Vec<u64> as Model>::gen(r); E206::V0(t0) } 1 => { let t0: u8 = (r.below(24) as u8); E206::V1(t0) } 2 => { let t0: String = <String as Model>::gen(r); E206::V2(t0) } 3 => { let y: u8 = (r.below(24) as u8); E206::V3 { y } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E206::V0(f_0) => { f_0.borrows(f); } E206::V1(f_0) => { f_0.borrows(f); } E206::V2(f_0) => { f_0.borrows(f); } E206::V3 { y: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum E207<'a> { #[speedy(tag = 268435456)] V0(#[speedy(constant_prefix = "ab\u{e9}")] #[speedy(length_type = u64_varint)] String, #[speedy(length_type = u32, default_on_eof)] Cow<'a, str>, S55), #[speedy(tag = 72057594037927936)] V1 { #[speedy(constant_prefix = '\u{20ac}', varint)] r#type: u64, #[speedy(default_on_eof)] slice: u16, #[speedy(length_type = u32)] #[speedy(default_on_eof)] size: Option<Cow<'a, [i32]>> }, V2 { #[speedy(default_on_eof)] #[speedy(varint)] result: u64 } }
impl Model for E207<'static> {
    fn schema() -> String { enum_schema("u64", false, &[(268435456, vec![fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[97, 98, 195, 169]), fieldx(with_lt(<Cow<'static, str> as Model>::schema(), "{\"l\":\"u32\"}"), true, false, &[]), fieldx(<S55 as Model>::schema(), false, false, &[])]), (72057594037927936, vec![fieldx(varint_schema(), false, false, &[226, 130, 172]), fieldx(<u16 as Model>::schema(), true, false, &[]), fieldx(with_lt(<Option<Cow<'static, [i32]>> as Model>::schema(), "{\"l\":\"u32\"}"), true, false, &[])]), (72057594037927937, vec![fieldx(varint_schema(), true, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E207::V0(f_0, f_1, f_2) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E207::V1 { r#type: f_0, slice: f_1, size: f_2 } => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E207::V2 { result: f_0 } => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let t0: String = { gen_upto::<String>(r, "varint") }; let t1: Cow<'static, str> = { gen_upto::<Cow<'static, str>>(r, "u32") }; let t2: S55 = <S55 as Model>::gen(r); E207::V0(t0, t1, t2) } 1 => { let r#type: u64 = <u64 as Model>::gen(r); let slice: u16 = (r.below(24) as u16); let size: Option<Cow<'static, [i32]>> = { gen_upto::<Option<Cow<'static, [i32]>>>(r, "u32") }; E207::V1 { r#type, slice, size } } 2 => { let result: u64 = <u64 as Model>::gen(r); E207::V2 { result } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E207::V0(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E207::V1 { r#type: f_0, slice: f_1, size: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E207::V2 { result: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S208(pub E177, pub NonZeroI16, pub Ipv6Addr, pub i32, pub Option<u16>);
impl Model for S208 {
    fn schema() -> String { struct_schema(&[fieldx(<E177 as Model>::schema(), false, false, &[]), fieldx(<NonZeroI16 as Model>::schema(), false, false, &[]), fieldx(<Ipv6Addr as Model>::schema(), false, false, &[]), fieldx(<i32 as Model>::schema(), false, false, &[]), fieldx(<Option<u16> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: E177 = <E177 as Model>::gen(r); let t1: NonZeroI16 = <NonZeroI16 as Model>::gen(r); let t2: Ipv6Addr = <Ipv6Addr as Model>::gen(r); let t3: i32 = <i32 as Model>::gen(r); let t4: Option<u16> = <Option<u16> as Model>::gen(r); S208(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S209<'a> { #[speedy(skip)] pub reader: Box<bool>, #[speedy(length_type = u32)] pub bytes: Vec<Option<i64>>, #[speedy(skip)] pub r#type: i16, pub tag: usize, #[speedy(default_on_eof)] pub a: BTreeMap<u32, S133<'a>> }
impl Model for S209<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<Box<bool> as Model>::schema(), false, true, &[]), fieldx(with_lt(<Vec<Option<i64>> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(<i16 as Model>::schema(), false, true, &[]), fieldx(<usize as Model>::schema(), false, false, &[]), fieldx(<BTreeMap<u32, S133<'static>> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.reader.val(o); o.push(','); self.bytes.val(o); o.push(','); self.r#type.val(o); o.push(','); self.tag.val(o); o.push(','); self.a.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let reader: Box<bool> = <Box<bool> as Model>::gen(r); let bytes: Vec<Option<i64>> = { gen_upto::<Vec<Option<i64>>>(r, "u32") }; let r#type: i16 = <i16 as Model>::gen(r); let tag: usize = <usize as Model>::gen(r); let a: BTreeMap<u32, S133<'static>> = <BTreeMap<u32, S133<'static>> as Model>::gen(r); S209 { reader, bytes, r#type, tag, a } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.reader.borrows(f); self.bytes.borrows(f); self.r#type.borrows(f); self.tag.borrows(f); self.a.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S210 { #[speedy(constant_prefix = b"RU")] pub id: String, #[speedy(length_type = u8)] pub key: Vec<BTreeMap<u16, f64>>, #[speedy(constant_prefix = b"RU")] pub bytes: BTreeSet<i16>, #[speedy(constant_prefix = b"\0\xff\0", default_on_eof)] pub flags: String }
impl Model for S210 {
    fn schema() -> String { struct_schema(&[fieldx(<String as Model>::schema(), false, false, &[82, 85]), fieldx(with_lt(<Vec<BTreeMap<u16, f64>> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(<BTreeSet<i16> as Model>::schema(), false, false, &[82, 85]), fieldx(<String as Model>::schema(), true, false, &[0, 255, 0])]) }
    fn val(&self, o: &mut String) { o.push('['); self.id.val(o); o.push(','); self.key.val(o); o.push(','); self.bytes.val(o); o.push(','); self.flags.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let id: String = <String as Model>::gen(r); let key: Vec<BTreeMap<u16, f64>> = { gen_upto::<Vec<BTreeMap<u16, f64>>>(r, "u8") }; let bytes: BTreeSet<i16> = <BTreeSet<i16> as Model>::gen(r); let flags: String = <String as Model>::gen(r); S210 { id, key, bytes, flags } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.id.borrows(f); self.key.borrows(f); self.bytes.borrows(f); self.flags.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct S211(pub (i8,), pub ());
impl Model for S211 {
    fn schema() -> String { struct_schema(&[fieldx(<(i8,) as Model>::schema(), false, false, &[]), fieldx(<() as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: (i8,) = <(i8,) as Model>::gen(r); let t1: () = <() as Model>::gen(r); S211(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S212 { pub x: String, #[speedy(constant_prefix = b"RU")] pub slice: [S45; 1], #[speedy(skip)] pub t1: [bool; 1], pub reader: (HashSet<bool>,) }
impl Model for S212 {
    fn schema() -> String { struct_schema(&[fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<[S45; 1] as Model>::schema(), false, false, &[82, 85]), fieldx(<[bool; 1] as Model>::schema(), false, true, &[]), fieldx(<(HashSet<bool>,) as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.x.val(o); o.push(','); self.slice.val(o); o.push(','); self.t1.val(o); o.push(','); self.reader.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let x: String = <String as Model>::gen(r); let slice: [S45; 1] = <[S45; 1] as Model>::gen(r); let t1: [bool; 1] = <[bool; 1] as Model>::gen(r); let reader: (HashSet<bool>,) = <(HashSet<bool>,) as Model>::gen(r); S212 { x, slice, t1, reader } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.x.borrows(f); self.slice.borrows(f); self.t1.borrows(f); self.reader.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S213(#[speedy(skip)] pub Option<IpAddr>, pub u32, pub bool, #[speedy(length_type = u7)] pub Vec<(f32, f32,)>, pub HashMap<u64, NonZeroU32>);
impl Model for S213 {
    fn schema() -> String { struct_schema(&[fieldx(<Option<IpAddr> as Model>::schema(), false, true, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<(f32, f32,)> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(<HashMap<u64, NonZeroU32> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<IpAddr> = <Option<IpAddr> as Model>::gen(r); let t1: u32 = <u32 as Model>::gen(r); let t2: bool = <bool as Model>::gen(r); let t3: Vec<(f32, f32,)> = { gen_upto::<Vec<(f32, f32,)>>(r, "u7") }; let t4: HashMap<u64, NonZeroU32> = <HashMap<u64, NonZeroU32> as Model>::gen(r); S213(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S214 { #[speedy(constant_prefix = false)] pub error: Duration, #[speedy(constant_prefix = 7u8)] pub len: HashMap<i16, bool>, #[speedy(default_on_eof)] pub count: bool }
impl Model for S214 {
    fn schema() -> String { struct_schema(&[fieldx(<Duration as Model>::schema(), false, false, &[0]), fieldx(<HashMap<i16, bool> as Model>::schema(), false, false, &[7]), fieldx(<bool as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.error.val(o); o.push(','); self.len.val(o); o.push(','); self.count.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let error: Duration = <Duration as Model>::gen(r); let len: HashMap<i16, bool> = <HashMap<i16, bool> as Model>::gen(r); let count: bool = <bool as Model>::gen(r); S214 { error, len, count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.error.borrows(f); self.len.borrows(f); self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S215<'a>(#[speedy(skip)] pub ([u16; 1],), #[speedy(length_type = u7, constant_prefix = b"RU")] pub Cow<'a, HashSet<u16>>, pub bool);
impl Model for S215<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<([u16; 1],) as Model>::schema(), false, true, &[]), fieldx(with_lt(<Cow<'static, HashSet<u16>> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[82, 85]), fieldx(<bool as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: ([u16; 1],) = <([u16; 1],) as Model>::gen(r); let t1: Cow<'static, HashSet<u16>> = { gen_upto::<Cow<'static, HashSet<u16>>>(r, "u7") }; let t2: bool = <bool as Model>::gen(r); S215(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S216<'a> { #[speedy(constant_prefix = 'x')] #[speedy(default_on_eof)] pub flags: char, #[speedy(default_on_eof)] pub count: Vec<Cow<'a, BTreeMap<u8, u32>>> }
impl Model for S216<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<char as Model>::schema(), true, false, &[120]), fieldx(<Vec<Cow<'static, BTreeMap<u8, u32>>> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.flags.val(o); o.push(','); self.count.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let flags: char = <char as Model>::gen(r); let count: Vec<Cow<'static, BTreeMap<u8, u32>>> = <Vec<Cow<'static, BTreeMap<u8, u32>>> as Model>::gen(r); S216 { flags, count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.flags.borrows(f); self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S217 { #[speedy(constant_prefix = true)] pub t1: HashSet<String>, #[speedy(default_on_eof)] #[speedy(constant_prefix = -128i8)] pub r#type: HashMap<i16, bool> }
impl Model for S217 {
    fn schema() -> String { struct_schema(&[fieldx(<HashSet<String> as Model>::schema(), false, false, &[1]), fieldx(<HashMap<i16, bool> as Model>::schema(), true, false, &[128])]) }
    fn val(&self, o: &mut String) { o.push('['); self.t1.val(o); o.push(','); self.r#type.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: HashSet<String> = <HashSet<String> as Model>::gen(r); let r#type: HashMap<i16, bool> = <HashMap<i16, bool> as Model>::gen(r); S217 { t1, r#type } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); self.r#type.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S218(#[speedy(skip)] pub String, pub String);
impl Model for S218 {
    fn schema() -> String { struct_schema(&[fieldx(<String as Model>::schema(), false, true, &[]), fieldx(<String as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: String = <String as Model>::gen(r); let t1: String = <String as Model>::gen(r); S218(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S219(#[speedy(constant_prefix = b'Z')] pub Option<Uuid>, pub char, pub NonZeroU32, pub bool, #[speedy(skip)] pub HashMap<u64, char>);
impl Model for S219 {
    fn schema() -> String { struct_schema(&[fieldx(<Option<Uuid> as Model>::schema(), false, false, &[90]), fieldx(<char as Model>::schema(), false, false, &[]), fieldx(<NonZeroU32 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[]), fieldx(<HashMap<u64, char> as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<Uuid> = <Option<Uuid> as Model>::gen(r); let t1: char = <char as Model>::gen(r); let t2: NonZeroU32 = <NonZeroU32 as Model>::gen(r); let t3: bool = <bool as Model>::gen(r); let t4: HashMap<u64, char> = <HashMap<u64, char> as Model>::gen(r); S219(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S220(pub f64, #[speedy(default_on_eof)] pub HashMap<char, u64>);
impl Model for S220 {
    fn schema() -> String { struct_schema(&[fieldx(<f64 as Model>::schema(), false, false, &[]), fieldx(<HashMap<char, u64> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: f64 = <f64 as Model>::gen(r); let t1: HashMap<char, u64> = <HashMap<char, u64> as Model>::gen(r); S220(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S221 { pub id: BTreeSet<u64>, #[speedy(default_on_eof)] pub size: BTreeMap<u16, Duration> }
impl Model for S221 {
    fn schema() -> String { struct_schema(&[fieldx(<BTreeSet<u64> as Model>::schema(), false, false, &[]), fieldx(<BTreeMap<u16, Duration> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.id.val(o); o.push(','); self.size.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let id: BTreeSet<u64> = <BTreeSet<u64> as Model>::gen(r); let size: BTreeMap<u16, Duration> = <BTreeMap<u16, Duration> as Model>::gen(r); S221 { id, size } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.id.borrows(f); self.size.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S222(pub Vec<Vec<u8>>, #[speedy(skip)] pub u8, pub i32, #[speedy(skip)] pub BTreeMap<u32, u32>);
impl Model for S222 {
    fn schema() -> String { struct_schema(&[fieldx(<Vec<Vec<u8>> as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, true, &[]), fieldx(<i32 as Model>::schema(), false, false, &[]), fieldx(<BTreeMap<u32, u32> as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<Vec<u8>> = <Vec<Vec<u8>> as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); let t2: i32 = <i32 as Model>::gen(r); let t3: BTreeMap<u32, u32> = <BTreeMap<u32, u32> as Model>::gen(r); S222(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S223 { #[speedy(constant_prefix = b"RU")] pub r#type: [String; 3], #[speedy(constant_prefix = b"RU")] pub kind: [u128; 0], pub result: bool, #[speedy(constant_prefix = true)] pub t1: u128, #[speedy(default_on_eof)] pub slice: HashSet<bool> }
impl Model for S223 {
    fn schema() -> String { struct_schema(&[fieldx(<[String; 3] as Model>::schema(), false, false, &[82, 85]), fieldx(<[u128; 0] as Model>::schema(), false, false, &[82, 85]), fieldx(<bool as Model>::schema(), false, false, &[]), fieldx(<u128 as Model>::schema(), false, false, &[1]), fieldx(<HashSet<bool> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.r#type.val(o); o.push(','); self.kind.val(o); o.push(','); self.result.val(o); o.push(','); self.t1.val(o); o.push(','); self.slice.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let r#type: [String; 3] = <[String; 3] as Model>::gen(r); let kind: [u128; 0] = <[u128; 0] as Model>::gen(r); let result: bool = <bool as Model>::gen(r); let t1: u128 = <u128 as Model>::gen(r); let slice: HashSet<bool> = <HashSet<bool> as Model>::gen(r); S223 { r#type, kind, result, t1, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.r#type.borrows(f); self.kind.borrows(f); self.result.borrows(f); self.t1.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S224 { pub key: BTreeSet<String>, #[speedy(length_type = u16)] pub len: String, #[speedy(default_on_eof)] pub x: u16 }
impl Model for S224 {
    fn schema() -> String { struct_schema(&[fieldx(<BTreeSet<String> as Model>::schema(), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(<u16 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.key.val(o); o.push(','); self.len.val(o); o.push(','); self.x.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let key: BTreeSet<String> = <BTreeSet<String> as Model>::gen(r); let len: String = { gen_upto::<String>(r, "u16") }; let x: u16 = <u16 as Model>::gen(r); S224 { key, len, x } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.key.borrows(f); self.len.borrows(f); self.x.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S225<'a>(pub Option<u64>, pub NonZeroI16, pub u32, pub Cow<'a, [u64]>, #[speedy(default_on_eof)] pub u32);
impl Model for S225<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<Option<u64> as Model>::schema(), false, false, &[]), fieldx(<NonZeroI16 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, [u64]> as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<u64> = <Option<u64> as Model>::gen(r); let t1: NonZeroI16 = <NonZeroI16 as Model>::gen(r); let t2: u32 = <u32 as Model>::gen(r); let t3: Cow<'static, [u64]> = <Cow<'static, [u64]> as Model>::gen(r); let t4: u32 = <u32 as Model>::gen(r); S225(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S226(#[speedy(skip)] pub Option<String>, #[speedy(skip)] pub Vec<u32>, pub HashMap<String, [usize; 1]>, #[speedy(default_on_eof)] pub i16, #[speedy(skip)] pub i8);
impl Model for S226 {
    fn schema() -> String { struct_schema(&[fieldx(<Option<String> as Model>::schema(), false, true, &[]), fieldx(<Vec<u32> as Model>::schema(), false, true, &[]), fieldx(<HashMap<String, [usize; 1]> as Model>::schema(), false, false, &[]), fieldx(<i16 as Model>::schema(), true, false, &[]), fieldx(<i8 as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<String> = <Option<String> as Model>::gen(r); let t1: Vec<u32> = <Vec<u32> as Model>::gen(r); let t2: HashMap<String, [usize; 1]> = <HashMap<String, [usize; 1]> as Model>::gen(r); let t3: i16 = <i16 as Model>::gen(r); let t4: i8 = <i8 as Model>::gen(r); S226(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S227(pub u16, pub i128, pub Vec<[u16; 0]>);
impl Model for S227 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<i128 as Model>::schema(), false, false, &[]), fieldx(<Vec<[u16; 0]> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: i128 = <i128 as Model>::gen(r); let t2: Vec<[u16; 0]> = <Vec<[u16; 0]> as Model>::gen(r); S227(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S228<'a> { pub name: BTreeMap<String, [u64; 1]>, pub b: Option<BTreeMap<String, bool>>, #[speedy(skip)] pub kind: Cow<'a, [u8]>, #[speedy(constant_prefix = true, default_on_eof)] pub r#type: Option<String> }
impl Model for S228<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<BTreeMap<String, [u64; 1]> as Model>::schema(), false, false, &[]), fieldx(<Option<BTreeMap<String, bool>> as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, [u8]> as Model>::schema(), false, true, &[]), fieldx(<Option<String> as Model>::schema(), true, false, &[1])]) }
    fn val(&self, o: &mut String) { o.push('['); self.name.val(o); o.push(','); self.b.val(o); o.push(','); self.kind.val(o); o.push(','); self.r#type.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: BTreeMap<String, [u64; 1]> = <BTreeMap<String, [u64; 1]> as Model>::gen(r); let b: Option<BTreeMap<String, bool>> = <Option<BTreeMap<String, bool>> as Model>::gen(r); let kind: Cow<'static, [u8]> = <Cow<'static, [u8]> as Model>::gen(r); let r#type: Option<String> = <Option<String> as Model>::gen(r); S228 { name, b, kind, r#type } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); self.b.borrows(f); self.kind.borrows(f); self.r#type.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S229(#[speedy(constant_prefix = '\u{20ac}')] pub String, #[speedy(length_type = u64_varint)] pub BTreeMap<u32, BTreeMap<u32, char>>, #[speedy(constant_prefix = "ab\u{e9}")] pub bool, #[speedy(skip)] pub Option<Vec<bool>>, #[speedy(default_on_eof)] pub HashSet<u64>);
impl Model for S229 {
    fn schema() -> String { struct_schema(&[fieldx(<String as Model>::schema(), false, false, &[226, 130, 172]), fieldx(with_lt(<BTreeMap<u32, BTreeMap<u32, char>> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[97, 98, 195, 169]), fieldx(<Option<Vec<bool>> as Model>::schema(), false, true, &[]), fieldx(<HashSet<u64> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: String = <String as Model>::gen(r); let t1: BTreeMap<u32, BTreeMap<u32, char>> = { gen_upto::<BTreeMap<u32, BTreeMap<u32, char>>>(r, "varint") }; let t2: bool = <bool as Model>::gen(r); let t3: Option<Vec<bool>> = <Option<Vec<bool>> as Model>::gen(r); let t4: HashSet<u64> = <HashSet<u64> as Model>::gen(r); S229(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S230(pub u8, #[speedy(default_on_eof)] pub char, #[speedy(default_on_eof)] pub u8);
impl Model for S230 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<char as Model>::schema(), true, false, &[]), fieldx(<u8 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: char = <char as Model>::gen(r); let t2: u8 = <u8 as Model>::gen(r); S230(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S231<'a>(pub i128, #[speedy(length_type = u64)] pub Cow<'a, BTreeMap<u8, u32>>, pub Vec<Option<Ipv6Addr>>, #[speedy(constant_prefix = b'Z')] pub String, #[speedy(default_on_eof)] pub Option<BTreeSet<u8>>);
impl Model for S231<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<i128 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeMap<u8, u32>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(<Vec<Option<Ipv6Addr>> as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[90]), fieldx(<Option<BTreeSet<u8>> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: i128 = <i128 as Model>::gen(r); let t1: Cow<'static, BTreeMap<u8, u32>> = { gen_upto::<Cow<'static, BTreeMap<u8, u32>>>(r, "u64") }; let t2: Vec<Option<Ipv6Addr>> = <Vec<Option<Ipv6Addr>> as Model>::gen(r); let t3: String = <String as Model>::gen(r); let t4: Option<BTreeSet<u8>> = <Option<BTreeSet<u8>> as Model>::gen(r); S231(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S232(pub String, #[speedy(skip)] pub Option<i16>, #[speedy(default_on_eof, constant_prefix = 'x')] pub Vec<HashSet<char>>);
impl Model for S232 {
    fn schema() -> String { struct_schema(&[fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<Option<i16> as Model>::schema(), false, true, &[]), fieldx(<Vec<HashSet<char>> as Model>::schema(), true, false, &[120])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: String = <String as Model>::gen(r); let t1: Option<i16> = <Option<i16> as Model>::gen(r); let t2: Vec<HashSet<char>> = <Vec<HashSet<char>> as Model>::gen(r); S232(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S233 { pub value: S43, #[speedy(length_type = u16)] pub size: BTreeSet<u32> }
impl Model for S233 {
    fn schema() -> String { struct_schema(&[fieldx(<S43 as Model>::schema(), false, false, &[]), fieldx(with_lt(<BTreeSet<u32> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.value.val(o); o.push(','); self.size.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let value: S43 = <S43 as Model>::gen(r); let size: BTreeSet<u32> = { gen_upto::<BTreeSet<u32>>(r, "u16") }; S233 { value, size } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.value.borrows(f); self.size.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S234<'a>(pub u64, #[speedy(skip)] pub f64, pub NonZeroU32, #[speedy(length_type = u64)] pub Cow<'a, [i128]>, #[speedy(default_on_eof)] #[speedy(constant_prefix = true)] pub Cow<'a, [u32]>);
impl Model for S234<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<f64 as Model>::schema(), false, true, &[]), fieldx(<NonZeroU32 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, [i128]> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(<Cow<'static, [u32]> as Model>::schema(), true, false, &[1])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let t1: f64 = <f64 as Model>::gen(r); let t2: NonZeroU32 = <NonZeroU32 as Model>::gen(r); let t3: Cow<'static, [i128]> = { gen_upto::<Cow<'static, [i128]>>(r, "u64") }; let t4: Cow<'static, [u32]> = <Cow<'static, [u32]> as Model>::gen(r); S234(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S235<'a> { #[speedy(constant_prefix = 7u8)] pub b: BTreeMap<u16, [Duration; 3]>, pub key: f64, #[speedy(default_on_eof, length_type = u32)] pub size: Cow<'a, str> }
impl Model for S235<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<BTreeMap<u16, [Duration; 3]> as Model>::schema(), false, false, &[7]), fieldx(<f64 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, str> as Model>::schema(), "{\"l\":\"u32\"}"), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.b.val(o); o.push(','); self.key.val(o); o.push(','); self.size.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let b: BTreeMap<u16, [Duration; 3]> = <BTreeMap<u16, [Duration; 3]> as Model>::gen(r); let key: f64 = <f64 as Model>::gen(r); let size: Cow<'static, str> = { gen_upto::<Cow<'static, str>>(r, "u32") }; S235 { b, key, size } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.b.borrows(f); self.key.borrows(f); self.size.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S236(pub u8, #[speedy(skip)] pub u8, #[speedy(default_on_eof)] pub String);
impl Model for S236 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, true, &[]), fieldx(<String as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); let t2: String = <String as Model>::gen(r); S236(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S237 { #[speedy(constant_prefix = -3i8)] pub count: NonZeroU32, #[speedy(constant_prefix = "ab\u{e9}")] pub result: u64, pub slice: Vec<f64> }
impl Model for S237 {
    fn schema() -> String { struct_schema(&[fieldx(<NonZeroU32 as Model>::schema(), false, false, &[253]), fieldx(<u64 as Model>::schema(), false, false, &[97, 98, 195, 169]), fieldx(<Vec<f64> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.count.val(o); o.push(','); self.result.val(o); o.push(','); self.slice.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: NonZeroU32 = <NonZeroU32 as Model>::gen(r); let result: u64 = <u64 as Model>::gen(r); let slice: Vec<f64> = <Vec<f64> as Model>::gen(r); S237 { count, result, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); self.result.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S238<'a> { #[speedy(skip)] pub data: u16, #[speedy(constant_prefix = -128i8)] pub result: Cow<'a, BTreeMap<u8, u32>>, #[speedy(constant_prefix = true)] pub error: i16, pub x: u16 }
impl Model for S238<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, true, &[]), fieldx(<Cow<'static, BTreeMap<u8, u32>> as Model>::schema(), false, false, &[128]), fieldx(<i16 as Model>::schema(), false, false, &[1]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.data.val(o); o.push(','); self.result.val(o); o.push(','); self.error.val(o); o.push(','); self.x.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let data: u16 = <u16 as Model>::gen(r); let result: Cow<'static, BTreeMap<u8, u32>> = <Cow<'static, BTreeMap<u8, u32>> as Model>::gen(r); let error: i16 = <i16 as Model>::gen(r); let x: u16 = <u16 as Model>::gen(r); S238 { data, result, error, x } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.data.borrows(f); self.result.borrows(f); self.error.borrows(f); self.x.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S239 { pub bytes: [i16; 2], #[speedy(constant_prefix = b"\0\xff\0")] pub b: String, pub length: (u16, S58,), #[speedy(skip)] pub r#type: u32 }
impl Model for S239 {
    fn schema() -> String { struct_schema(&[fieldx(<[i16; 2] as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[0, 255, 0]), fieldx(<(u16, S58,) as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.bytes.val(o); o.push(','); self.b.val(o); o.push(','); self.length.val(o); o.push(','); self.r#type.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let bytes: [i16; 2] = <[i16; 2] as Model>::gen(r); let b: String = <String as Model>::gen(r); let length: (u16, S58,) = <(u16, S58,) as Model>::gen(r); let r#type: u32 = <u32 as Model>::gen(r); S239 { bytes, b, length, r#type } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.bytes.borrows(f); self.b.borrows(f); self.length.borrows(f); self.r#type.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct S240(#[speedy(skip)] pub bool, #[speedy(skip)] pub [(bool, i64, i128,); 0]);
impl Model for S240 {
    fn schema() -> String { struct_schema(&[fieldx(<bool as Model>::schema(), false, true, &[]), fieldx(<[(bool, i64, i128,); 0] as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: bool = <bool as Model>::gen(r); let t1: [(bool, i64, i128,); 0] = <[(bool, i64, i128,); 0] as Model>::gen(r); S240(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S241 { #[speedy(skip)] pub r#type: bool, #[speedy(skip)] pub slice: u32, pub rest: [BTreeSet<u64>; 1], #[speedy(skip)] pub value: BTreeMap<i16, u16> }
impl Model for S241 {
    fn schema() -> String { struct_schema(&[fieldx(<bool as Model>::schema(), false, true, &[]), fieldx(<u32 as Model>::schema(), false, true, &[]), fieldx(<[BTreeSet<u64>; 1] as Model>::schema(), false, false, &[]), fieldx(<BTreeMap<i16, u16> as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.r#type.val(o); o.push(','); self.slice.val(o); o.push(','); self.rest.val(o); o.push(','); self.value.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let r#type: bool = <bool as Model>::gen(r); let slice: u32 = <u32 as Model>::gen(r); let rest: [BTreeSet<u64>; 1] = <[BTreeSet<u64>; 1] as Model>::gen(r); let value: BTreeMap<i16, u16> = <BTreeMap<i16, u16> as Model>::gen(r); S241 { r#type, slice, rest, value } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.r#type.borrows(f); self.slice.borrows(f); self.rest.borrows(f); self.value.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S242(#[speedy(constant_prefix = false)] pub BTreeSet<char>, #[speedy(constant_prefix = false)] #[speedy(length_type = u32)] pub BTreeSet<bool>, #[speedy(default_on_eof)] pub u32);
impl Model for S242 {
    fn schema() -> String { struct_schema(&[fieldx(<BTreeSet<char> as Model>::schema(), false, false, &[0]), fieldx(with_lt(<BTreeSet<bool> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[0]), fieldx(<u32 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: BTreeSet<char> = <BTreeSet<char> as Model>::gen(r); let t1: BTreeSet<bool> = { gen_upto::<BTreeSet<bool>>(r, "u32") }; let t2: u32 = <u32 as Model>::gen(r); S242(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct S243(#[speedy(skip)] pub u16, pub bool);
impl Model for S243 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, true, &[]), fieldx(<bool as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: bool = <bool as Model>::gen(r); S243(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S244(pub u16, pub i16, #[speedy(constant_prefix = b"RU", default_on_eof)] pub u16);
impl Model for S244 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<i16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), true, false, &[82, 85])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: i16 = <i16 as Model>::gen(r); let t2: u16 = <u16 as Model>::gen(r); S244(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct S245(pub u32, #[speedy(skip)] pub bool, #[speedy(constant_prefix = "ab\u{e9}")] #[speedy(default_on_eof)] pub usize);
impl Model for S245 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, true, &[]), fieldx(<usize as Model>::schema(), true, false, &[97, 98, 195, 169])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = <u32 as Model>::gen(r); let t1: bool = <bool as Model>::gen(r); let t2: usize = <usize as Model>::gen(r); S245(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S246(pub Ipv4Addr, #[speedy(length_type = u64)] pub String);
impl Model for S246 {
    fn schema() -> String { struct_schema(&[fieldx(<Ipv4Addr as Model>::schema(), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Ipv4Addr = <Ipv4Addr as Model>::gen(r); let t1: String = { gen_upto::<String>(r, "u64") }; S246(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S247(#[speedy(default_on_eof)] pub Option<i64>, #[speedy(skip)] pub char);
impl Model for S247 {
    fn schema() -> String { struct_schema(&[fieldx(<Option<i64> as Model>::schema(), true, false, &[]), fieldx(<char as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<i64> = <Option<i64> as Model>::gen(r); let t1: char = <char as Model>::gen(r); S247(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S248<'a>(#[speedy(length_type = u7)] pub Cow<'a, HashMap<u16, u8>>, pub BTreeMap<u16, char>, #[speedy(length_type = u7)] pub Cow<'a, str>, #[speedy(default_on_eof)] #[speedy(constant_prefix = -3i8)] pub String);
impl Model for S248<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, HashMap<u16, u8>> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(<BTreeMap<u16, char> as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, str> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(<String as Model>::schema(), true, false, &[253])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Cow<'static, HashMap<u16, u8>> = { gen_upto::<Cow<'static, HashMap<u16, u8>>>(r, "u7") }; let t1: BTreeMap<u16, char> = <BTreeMap<u16, char> as Model>::gen(r); let t2: Cow<'static, str> = { gen_upto::<Cow<'static, str>>(r, "u7") }; let t3: String = <String as Model>::gen(r); S248(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S249(#[speedy(length_type = u64)] pub Vec<u8>, #[speedy(default_on_eof)] #[speedy(length_type = u64_varint)] pub Option<HashSet<bool>>);
impl Model for S249 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(with_lt(<Option<HashSet<bool>> as Model>::schema(), "{\"l\":\"varint\"}"), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<u8> = { gen_upto::<Vec<u8>>(r, "u64") }; let t1: Option<HashSet<bool>> = { gen_upto::<Option<HashSet<bool>>>(r, "varint") }; S249(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S250(#[speedy(constant_prefix = 'x', varint)] pub u64, pub u8, #[speedy(length = t1)] pub HashMap<u64, Vec<u16>>, #[speedy(length_type = u16)] pub Vec<u8>);
impl Model for S250 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[120]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<HashMap<u64, Vec<u16>> as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"f\",\"i\":2},\"nm\":\"t2\"}"), false, false, &[]), fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let t1: u8 = (r.below(24) as u8); let t2: HashMap<u64, Vec<u16>> = { let n = (t1) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <HashMap<u64, Vec<u16>> as GenN>::gen_n(r, n) }; let t3: Vec<u8> = { gen_upto::<Vec<u8>>(r, "u16") }; S250(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S251<'a> { #[speedy(length_type = u8)] pub error: String, #[speedy(length_type = u7)] pub length: Vec<u8>, #[speedy(length_type = u8)] pub flags: Vec<Cow<'a, BTreeMap<u8, u32>>> }
impl Model for S251<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(with_lt(<Vec<Cow<'static, BTreeMap<u8, u32>>> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.error.val(o); o.push(','); self.length.val(o); o.push(','); self.flags.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let error: String = { gen_upto::<String>(r, "u8") }; let length: Vec<u8> = { gen_upto::<Vec<u8>>(r, "u7") }; let flags: Vec<Cow<'static, BTreeMap<u8, u32>>> = { gen_upto::<Vec<Cow<'static, BTreeMap<u8, u32>>>>(r, "u8") }; S251 { error, length, flags } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.error.borrows(f); self.length.borrows(f); self.flags.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S252<'a> { #[speedy(length_type = u64_varint)] pub t1: String, pub t0: u16, pub reader: u8, #[speedy(length_type = u64)] pub tag: Cow<'a, [i32]>, pub count: u8 }
impl Model for S252<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, [i32]> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.t1.val(o); o.push(','); self.t0.val(o); o.push(','); self.reader.val(o); o.push(','); self.tag.val(o); o.push(','); self.count.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: String = { gen_upto::<String>(r, "varint") }; let t0: u16 = (r.below(24) as u16); let reader: u8 = (r.below(24) as u8); let tag: Cow<'static, [i32]> = { gen_upto::<Cow<'static, [i32]>>(r, "u64") }; let count: u8 = (r.below(24) as u8); S252 { t1, t0, reader, tag, count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); self.t0.borrows(f); self.reader.borrows(f); self.tag.borrows(f); self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S253<'a>(#[speedy(length_type = u32)] pub Cow<'a, [u8]>, #[speedy(length_type = u16)] pub &'a str, #[speedy(length_type = u32)] pub HashMap<char, i128>, #[speedy(varint)] #[speedy(constant_prefix = 'x')] pub u64, #[speedy(length_type = u32)] pub Cow<'a, str>);
impl Model for S253<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, [u8]> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(with_lt(<&'static str as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<HashMap<char, i128> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(varint_schema(), false, false, &[120]), fieldx(with_lt(<Cow<'static, str> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Cow<'static, [u8]> = { gen_upto::<Cow<'static, [u8]>>(r, "u32") }; let t1: &'static str = { gen_upto::<&'static str>(r, "u16") }; let t2: HashMap<char, i128> = { gen_upto::<HashMap<char, i128>>(r, "u32") }; let t3: u64 = <u64 as Model>::gen(r); let t4: Cow<'static, str> = { gen_upto::<Cow<'static, str>>(r, "u32") }; S253(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S254<'a>(#[speedy(constant_prefix = true)] #[speedy(length_type = u8)] pub Cow<'a, str>, #[speedy(length_type = u16)] pub HashMap<String, String>, #[speedy(length_type = u64_varint)] pub Cow<'a, BTreeSet<u16>>, #[speedy(length_type = u64_varint)] pub Vec<u8>, #[speedy(default_on_eof)] pub u32);
impl Model for S254<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, str> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[1]), fieldx(with_lt(<HashMap<String, String> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeSet<u16>> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(<u32 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Cow<'static, str> = { gen_upto::<Cow<'static, str>>(r, "u8") }; let t1: HashMap<String, String> = { gen_upto::<HashMap<String, String>>(r, "u16") }; let t2: Cow<'static, BTreeSet<u16>> = { gen_upto::<Cow<'static, BTreeSet<u16>>>(r, "varint") }; let t3: Vec<u8> = { gen_upto::<Vec<u8>>(r, "varint") }; let t4: u32 = (r.below(24) as u32); S254(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S255(#[speedy(length_type = u8)] #[speedy(constant_prefix = b'Z')] pub Vec<i32>, pub i8, #[speedy(length_type = u7)] pub HashSet<String>);
impl Model for S255 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<i32> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[90]), fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<HashSet<String> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<i32> = { gen_upto::<Vec<i32>>(r, "u8") }; let t1: i8 = <i8 as Model>::gen(r); let t2: HashSet<String> = { gen_upto::<HashSet<String>>(r, "u7") }; S255(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E256 { V0 { #[speedy(constant_prefix = b"\0\xff\0")] bytes: u64 }, #[speedy(tag = 11948068413709566796)] V1, V2 { reader: char }, #[speedy(tag = 18446744073709551615)] V3 { x: u32 } }
impl Model for E256 {
    fn schema() -> String { enum_schema("varint", false, &[(0, vec![fieldx(<u64 as Model>::schema(), false, false, &[0, 255, 0])]), (11948068413709566796, vec![]), (11948068413709566797, vec![fieldx(<char as Model>::schema(), false, false, &[])]), (18446744073709551615, vec![fieldx(<u32 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E256::V0 { bytes: f_0 } => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E256::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E256::V2 { reader: f_0 } => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E256::V3 { x: f_0 } => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let bytes: u64 = <u64 as Model>::gen(r); E256::V0 { bytes } } 1 => {  E256::V1 } 2 => { let reader: char = <char as Model>::gen(r); E256::V2 { reader } } 3 => { let x: u32 = <u32 as Model>::gen(r); E256::V3 { x } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E256::V0 { bytes: f_0 } => { f_0.borrows(f); } E256::V1 => {  } E256::V2 { reader: f_0 } => { f_0.borrows(f); } E256::V3 { x: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u32)] pub enum E257 { V0(#[speedy(constant_prefix = 'x', default_on_eof)] i16), #[speedy(tag = 2997377081)] V1(#[speedy(constant_prefix = '\u{20ac}')] u32), #[speedy(tag = 1)] V2(S99, #[speedy(constant_prefix = -3i8)] BTreeMap<u8, NonZeroI16>) }
impl Model for E257 {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(<i16 as Model>::schema(), true, false, &[120])]), (2997377081, vec![fieldx(<u32 as Model>::schema(), false, false, &[226, 130, 172])]), (1, vec![fieldx(<S99 as Model>::schema(), false, false, &[]), fieldx(<BTreeMap<u8, NonZeroI16> as Model>::schema(), false, false, &[253])])]) }
    fn val(&self, o: &mut String) { match self { E257::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E257::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E257::V2(f_0, f_1) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let t0: i16 = <i16 as Model>::gen(r); E257::V0(t0) } 1 => { let t0: u32 = <u32 as Model>::gen(r); E257::V1(t0) } 2 => { let t0: S99 = <S99 as Model>::gen(r); let t1: BTreeMap<u8, NonZeroI16> = <BTreeMap<u8, NonZeroI16> as Model>::gen(r); E257::V2(t0, t1) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E257::V0(f_0) => { f_0.borrows(f); } E257::V1(f_0) => { f_0.borrows(f); } E257::V2(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E258<'a> { #[speedy(tag = 204)] V0((u8, i8,), #[speedy(constant_prefix = b"\0\xff\0")] i128, #[speedy(constant_prefix = true, default_on_eof)] Cow<'a, HashSet<u16>>), V1(Vec<SystemTime>), V2(Box<bool>, #[speedy(constant_prefix = b'Z')] u8, S243), #[speedy(tag = 0)] V3(#[speedy(constant_prefix = -128i8)] (i32, Box<u8>, Vec<u64>,)) }
impl Model for E258<'static> {
    fn schema() -> String { enum_schema("u8", false, &[(204, vec![fieldx(<(u8, i8,) as Model>::schema(), false, false, &[]), fieldx(<i128 as Model>::schema(), false, false, &[0, 255, 0]), fieldx(<Cow<'static, HashSet<u16>> as Model>::schema(), true, false, &[1])]), (205, vec![fieldx(<Vec<SystemTime> as Model>::schema(), false, false, &[])]), (206, vec![fieldx(<Box<bool> as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[90]), fieldx(<S243 as Model>::schema(), false, false, &[])]), (0, vec![fieldx(<(i32, Box<u8>, Vec<u64>,) as Model>::schema(), false, false, &[128])])]) }
    fn val(&self, o: &mut String) { match self { E258::V0(f_0, f_1, f_2) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E258::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E258::V2(f_0, f_1, f_2) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E258::V3(f_0) => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let t0: (u8, i8,) = <(u8, i8,) as Model>::gen(r); let t1: i128 = <i128 as Model>::gen(r); let t2: Cow<'static, HashSet<u16>> = <Cow<'static, HashSet<u16>> as Model>::gen(r); E258::V0(t0, t1, t2) } 1 => { let t0: Vec<SystemTime> = <Vec<SystemTime> as Model>::gen(r); E258::V1(t0) } 2 => { let t0: Box<bool> = <Box<bool> as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); let t2: S243 = <S243 as Model>::gen(r); E258::V2(t0, t1, t2) } 3 => { let t0: (i32, Box<u8>, Vec<u64>,) = <(i32, Box<u8>, Vec<u64>,) as Model>::gen(r); E258::V3(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E258::V0(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E258::V1(f_0) => { f_0.borrows(f); } E258::V2(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E258::V3(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E259 { #[speedy(tag = 25)] V0 { length: [S52; 5] }, #[speedy(tag = 253)] V1(#[speedy(constant_prefix = b"RU")] char), V2, #[speedy(tag = 18)] V3(#[speedy(constant_prefix = true)] u32, #[speedy(constant_prefix = -3i8)] [Vec<u64>; 1], #[speedy(default_on_eof)] bool), #[speedy(tag = 4)] V4(#[speedy(constant_prefix = -3i8)] Ipv4Addr), #[speedy(tag = 3)] V5 { length: u128, #[speedy(length_type = u32)] reader: String, #[speedy(default_on_eof)] #[speedy(constant_prefix = '\u{20ac}')] rest: BTreeSet<u16> } }
impl Model for E259 {
    fn schema() -> String { enum_schema("u8", false, &[(25, vec![fieldx(<[S52; 5] as Model>::schema(), false, false, &[])]), (253, vec![fieldx(<char as Model>::schema(), false, false, &[82, 85])]), (254, vec![]), (18, vec![fieldx(<u32 as Model>::schema(), false, false, &[1]), fieldx(<[Vec<u64>; 1] as Model>::schema(), false, false, &[253]), fieldx(<bool as Model>::schema(), true, false, &[])]), (4, vec![fieldx(<Ipv4Addr as Model>::schema(), false, false, &[253])]), (3, vec![fieldx(<u128 as Model>::schema(), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(<BTreeSet<u16> as Model>::schema(), true, false, &[226, 130, 172])])]) }
    fn val(&self, o: &mut String) { match self { E259::V0 { length: f_0 } => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E259::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E259::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E259::V3(f_0, f_1, f_2) => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E259::V4(f_0) => { o.push_str("[5,["); f_0.val(o); o.push_str("]]"); } E259::V5 { length: f_0, reader: f_1, rest: f_2 } => { o.push_str("[6,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let length: [S52; 5] = <[S52; 5] as Model>::gen(r); E259::V0 { length } } 1 => { let t0: char = <char as Model>::gen(r); E259::V1(t0) } 2 => {  E259::V2 } 3 => { let t0: u32 = <u32 as Model>::gen(r); let t1: [Vec<u64>; 1] = <[Vec<u64>; 1] as Model>::gen(r); let t2: bool = <bool as Model>::gen(r); E259::V3(t0, t1, t2) } 4 => { let t0: Ipv4Addr = <Ipv4Addr as Model>::gen(r); E259::V4(t0) } 5 => { let length: u128 = <u128 as Model>::gen(r); let reader: String = { gen_upto::<String>(r, "u32") }; let rest: BTreeSet<u16> = <BTreeSet<u16> as Model>::gen(r); E259::V5 { length, reader, rest } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E259::V0 { length: f_0 } => { f_0.borrows(f); } E259::V1(f_0) => { f_0.borrows(f); } E259::V2 => {  } E259::V3(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E259::V4(f_0) => { f_0.borrows(f); } E259::V5 { length: f_0, reader: f_1, rest: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16)] pub enum E260 { #[speedy(tag = 4)] V0(IpAddr), V1 { #[speedy(default_on_eof)] length: [u128; 2] } }
impl Model for E260 {
    fn schema() -> String { enum_schema("u16", false, &[(4, vec![fieldx(<IpAddr as Model>::schema(), false, false, &[])]), (5, vec![fieldx(<[u128; 2] as Model>::schema(), true, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E260::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E260::V1 { length: f_0 } => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => { let t0: IpAddr = <IpAddr as Model>::gen(r); E260::V0(t0) } 1 => { let length: [u128; 2] = <[u128; 2] as Model>::gen(r); E260::V1 { length } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E260::V0(f_0) => { f_0.borrows(f); } E260::V1 { length: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub enum E261 { V0(#[speedy(default_on_eof, constant_prefix = "")] i64), V1([Option<u8>; 0], #[speedy(default_on_eof, length_type = u64)] Vec<Vec<f64>>, #[speedy(length_type = u64_varint, default_on_eof)] Vec<Vec<i128>>), #[speedy(tag = 4294967295)] V2(#[speedy(length_type = u64)] Vec<String>, #[speedy(default_on_eof)] #[speedy(constant_prefix = true)] u64), #[speedy(tag = 8192)] V3(S5) }
impl Model for E261 {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(<i64 as Model>::schema(), true, false, &[])]), (1, vec![fieldx(<[Option<u8>; 0] as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<Vec<f64>> as Model>::schema(), "{\"l\":\"u64\"}"), true, false, &[]), fieldx(with_lt(<Vec<Vec<i128>> as Model>::schema(), "{\"l\":\"varint\"}"), true, false, &[])]), (4294967295, vec![fieldx(with_lt(<Vec<String> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(<u64 as Model>::schema(), true, false, &[1])]), (8192, vec![fieldx(<S5 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E261::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E261::V1(f_0, f_1, f_2) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E261::V2(f_0, f_1) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E261::V3(f_0) => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let t0: i64 = <i64 as Model>::gen(r); E261::V0(t0) } 1 => { let t0: [Option<u8>; 0] = <[Option<u8>; 0] as Model>::gen(r); let t1: Vec<Vec<f64>> = { gen_upto::<Vec<Vec<f64>>>(r, "u64") }; let t2: Vec<Vec<i128>> = { gen_upto::<Vec<Vec<i128>>>(r, "varint") }; E261::V1(t0, t1, t2) } 2 => { let t0: Vec<String> = { gen_upto::<Vec<String>>(r, "u64") }; let t1: u64 = <u64 as Model>::gen(r); E261::V2(t0, t1) } 3 => { let t0: S5 = <S5 as Model>::gen(r); E261::V3(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E261::V0(f_0) => { f_0.borrows(f); } E261::V1(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E261::V2(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E261::V3(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K262 { pub t0: u16, #[speedy(skip)] pub result: u16 }
impl Model for K262 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t0).val(o); o.push(','); (self.result).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let result: u16 = <u16 as Model>::gen(r); K262 { t0, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t0.borrows(f); self.result.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K263 { pub id: u64, pub len: u64, #[speedy(varint)] pub rest: u64 }
impl Model for K263 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.id).val(o); o.push(','); (self.len).val(o); o.push(','); (self.rest).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let id: u64 = <u64 as Model>::gen(r); let len: u64 = <u64 as Model>::gen(r); let rest: u64 = <u64 as Model>::gen(r); K263 { id, len, rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.id.borrows(f); self.len.borrows(f); self.rest.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K264 { pub name: u16, #[speedy(default_on_eof)] pub kind: u16 }
impl Model for K264 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.name).val(o); o.push(','); (self.kind).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: u16 = <u16 as Model>::gen(r); let kind: u16 = <u16 as Model>::gen(r); K264 { name, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K265 { pub rest: u16, #[speedy(skip)] pub result: u16 }
impl Model for K265 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.rest).val(o); o.push(','); (self.result).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let rest: u16 = <u16 as Model>::gen(r); let result: u16 = <u16 as Model>::gen(r); K265 { rest, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.rest.borrows(f); self.result.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K266 { #[speedy(constant_prefix = "ab\u{e9}")] pub name: u64, pub tag: u64 }
impl Model for K266 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[97, 98, 195, 169]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.name).val(o); o.push(','); (self.tag).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: u64 = <u64 as Model>::gen(r); let tag: u64 = <u64 as Model>::gen(r); K266 { name, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K267 { pub t1: u64, pub r#type: u64, #[speedy(varint)] pub y: u64 }
impl Model for K267 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t1).val(o); o.push(','); (self.r#type).val(o); o.push(','); (self.y).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: u64 = <u64 as Model>::gen(r); let r#type: u64 = <u64 as Model>::gen(r); let y: u64 = <u64 as Model>::gen(r); K267 { t1, r#type, y } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); self.r#type.borrows(f); self.y.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K268 { pub name: u64, #[speedy(default_on_eof)] pub tag: u64 }
impl Model for K268 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.name).val(o); o.push(','); (self.tag).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: u64 = <u64 as Model>::gen(r); let tag: u64 = <u64 as Model>::gen(r); K268 { name, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K269 { #[speedy(skip)] pub r#type: u8, pub kind: u8, pub tag: u8 }
impl Model for K269 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, true, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.r#type).val(o); o.push(','); (self.kind).val(o); o.push(','); (self.tag).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let r#type: u8 = <u8 as Model>::gen(r); let kind: u8 = <u8 as Model>::gen(r); let tag: u8 = <u8 as Model>::gen(r); K269 { r#type, kind, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.r#type.borrows(f); self.kind.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct K270 { pub name: u64, #[speedy(varint)] pub slice: u64, pub length: u64 }
impl Model for K270 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.name).val(o); o.push(','); (self.slice).val(o); o.push(','); (self.length).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: u64 = <u64 as Model>::gen(r); let slice: u64 = <u64 as Model>::gen(r); let length: u64 = <u64 as Model>::gen(r); K270 { name, slice, length } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); self.slice.borrows(f); self.length.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(packed)] pub struct K271 { pub a: u64, #[speedy(skip)] pub result: u64 }
impl Model for K271 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); ({self.a}).val(o); o.push(','); ({self.result}).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let a: u64 = <u64 as Model>::gen(r); let result: u64 = <u64 as Model>::gen(r); K271 { a, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(packed)] pub struct K272 { pub r#type: u64, pub error: u64, #[speedy(default_on_eof)] pub a: u64 }
impl Model for K272 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); ({self.r#type}).val(o); o.push(','); ({self.error}).val(o); o.push(','); ({self.a}).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let r#type: u64 = <u64 as Model>::gen(r); let error: u64 = <u64 as Model>::gen(r); let a: u64 = <u64 as Model>::gen(r); K272 { r#type, error, a } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct K273 { #[speedy(skip)] pub name: u8 }
impl Model for K273 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.name).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: u8 = <u8 as Model>::gen(r); K273 { name } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct K274 { #[speedy(constant_prefix = b"\0\xff\0")] pub r#type: u16 }
impl Model for K274 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[0, 255, 0])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.r#type).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let r#type: u16 = <u16 as Model>::gen(r); K274 { r#type } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.r#type.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct K275 { #[speedy(varint)] pub size: u64 }
impl Model for K275 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.size).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let size: u64 = <u64 as Model>::gen(r); K275 { size } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.size.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K276 { pub reader: u32, #[speedy(skip)] pub b: u32 }
impl Model for K276 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.reader).val(o); o.push(','); (self.b).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let reader: u32 = <u32 as Model>::gen(r); let b: u32 = <u32 as Model>::gen(r); K276 { reader, b } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.reader.borrows(f); self.b.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K277 { pub tag: u64, pub size: u64, #[speedy(constant_prefix = -3i8)] pub t1: u64 }
impl Model for K277 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[253])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.tag).val(o); o.push(','); (self.size).val(o); o.push(','); (self.t1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let tag: u64 = <u64 as Model>::gen(r); let size: u64 = <u64 as Model>::gen(r); let t1: u64 = <u64 as Model>::gen(r); K277 { tag, size, t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.tag.borrows(f); self.size.borrows(f); self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K278 { pub x: u8, #[speedy(default_on_eof)] pub out: u8 }
impl Model for K278 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.x).val(o); o.push(','); (self.out).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let x: u8 = <u8 as Model>::gen(r); let out: u8 = <u8 as Model>::gen(r); K278 { x, out } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.x.borrows(f); self.out.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K279 { pub flags: u32, #[speedy(skip)] pub bytes: u32 }
impl Model for K279 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.flags).val(o); o.push(','); (self.bytes).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let flags: u32 = <u32 as Model>::gen(r); let bytes: u32 = <u32 as Model>::gen(r); K279 { flags, bytes } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.flags.borrows(f); self.bytes.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K280 { #[speedy(constant_prefix = b"\0\xff\0")] pub t0: u64, pub kind: u64 }
impl Model for K280 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[0, 255, 0]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t0).val(o); o.push(','); (self.kind).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let kind: u64 = <u64 as Model>::gen(r); K280 { t0, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t0.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct K281 { pub t1: u32, #[speedy(default_on_eof)] pub r#type: u32 }
impl Model for K281 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t1).val(o); o.push(','); (self.r#type).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: u32 = <u32 as Model>::gen(r); let r#type: u32 = <u32 as Model>::gen(r); K281 { t1, r#type } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); self.r#type.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P282 { #[speedy(constant_prefix = b"RU")] pub data: u16, pub kind: u16 }
impl Model for P282 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[82, 85]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.data).val(o); o.push(','); (self.kind).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let data: u16 = <u16 as Model>::gen(r); let kind: u16 = <u16 as Model>::gen(r); P282 { data, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.data.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P283 { pub reader: u16, #[speedy(constant_prefix = "ab\u{e9}")] pub data: u8 }
impl Model for P283 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[97, 98, 195, 169])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.reader).val(o); o.push(','); (self.data).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let reader: u16 = <u16 as Model>::gen(r); let data: u8 = <u8 as Model>::gen(r); P283 { reader, data } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.reader.borrows(f); self.data.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P284 { #[speedy(constant_prefix = 7u8)] pub t0: bool, pub rest: u16 }
impl Model for P284 {
    fn schema() -> String { struct_schema(&[fieldx(<bool as Model>::schema(), false, false, &[7]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t0).val(o); o.push(','); (self.rest).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: bool = <bool as Model>::gen(r); let rest: u16 = <u16 as Model>::gen(r); P284 { t0, rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t0.borrows(f); self.rest.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P285 { pub tag: u16, #[speedy(constant_prefix = 'x')] pub key: u16 }
impl Model for P285 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[120])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.tag).val(o); o.push(','); (self.key).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let tag: u16 = <u16 as Model>::gen(r); let key: u16 = <u16 as Model>::gen(r); P285 { tag, key } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.tag.borrows(f); self.key.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P286 { #[speedy(constant_prefix = '\u{20ac}')] pub result: u16, pub rest: u16 }
impl Model for P286 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[226, 130, 172]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.result).val(o); o.push(','); (self.rest).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: u16 = <u16 as Model>::gen(r); let rest: u16 = <u16 as Model>::gen(r); P286 { result, rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.result.borrows(f); self.rest.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P287 { #[speedy(constant_prefix = true)] pub t1: bool, pub bytes: u16 }
impl Model for P287 {
    fn schema() -> String { struct_schema(&[fieldx(<bool as Model>::schema(), false, false, &[1]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.t1).val(o); o.push(','); (self.bytes).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: bool = <bool as Model>::gen(r); let bytes: u16 = <u16 as Model>::gen(r); P287 { t1, bytes } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); self.bytes.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P288 { #[speedy(constant_prefix = b'Z')] pub data: u16, pub key: u16 }
impl Model for P288 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[90]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.data).val(o); o.push(','); (self.key).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let data: u16 = <u16 as Model>::gen(r); let key: u16 = <u16 as Model>::gen(r); P288 { data, key } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.data.borrows(f); self.key.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P289 { #[speedy(constant_prefix = -3i8)] pub count: u16, pub value: u16 }
impl Model for P289 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[253]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.count).val(o); o.push(','); (self.value).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: u16 = <u16 as Model>::gen(r); let value: u16 = <u16 as Model>::gen(r); P289 { count, value } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); self.value.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P290 { #[speedy(constant_prefix = b"\0\xff\0")] pub b: u16, pub error: u16 }
impl Model for P290 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[0, 255, 0]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.b).val(o); o.push(','); (self.error).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let b: u16 = <u16 as Model>::gen(r); let error: u16 = <u16 as Model>::gen(r); P290 { b, error } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.b.borrows(f); self.error.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P291 { #[speedy(constant_prefix = "")] pub slice: String, pub b: u16 }
impl Model for P291 {
    fn schema() -> String { struct_schema(&[fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.slice).val(o); o.push(','); (self.b).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let slice: String = <String as Model>::gen(r); let b: u16 = <u16 as Model>::gen(r); P291 { slice, b } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.slice.borrows(f); self.b.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P292 { pub r#type: u16, #[speedy(constant_prefix = false)] pub t1: u16 }
impl Model for P292 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[0])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.r#type).val(o); o.push(','); (self.t1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let r#type: u16 = <u16 as Model>::gen(r); let t1: u16 = <u16 as Model>::gen(r); P292 { r#type, t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.r#type.borrows(f); self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct P293 { pub out: u16, #[speedy(constant_prefix = -128i8)] pub reader: String }
impl Model for P293 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[128])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.out).val(o); o.push(','); (self.reader).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: u16 = <u16 as Model>::gen(r); let reader: String = <String as Model>::gen(r); P293 { out, reader } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.out.borrows(f); self.reader.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D294(pub u16, #[speedy(default_on_eof)] pub u8);
impl Model for D294 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); D294(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D295 { pub result: u16, #[speedy(default_on_eof)] #[speedy(varint)] pub count: u64 }
impl Model for D295 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.result).val(o); o.push(','); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: u16 = <u16 as Model>::gen(r); let count: u64 = <u64 as Model>::gen(r); D295 { result, count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.result.borrows(f); self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D296 { pub count: u8, #[speedy(default_on_eof)] pub length: bool }
impl Model for D296 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.count).val(o); o.push(','); (self.length).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: u8 = <u8 as Model>::gen(r); let length: bool = <bool as Model>::gen(r); D296 { count, length } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); self.length.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D297 { pub flags: u16, #[speedy(default_on_eof)] pub count: char }
impl Model for D297 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<char as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.flags).val(o); o.push(','); (self.count).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let flags: u16 = <u16 as Model>::gen(r); let count: char = <char as Model>::gen(r); D297 { flags, count } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.flags.borrows(f); self.count.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D298 { pub a: u16, #[speedy(default_on_eof)] pub flags: String }
impl Model for D298 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.a).val(o); o.push(','); (self.flags).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let a: u16 = <u16 as Model>::gen(r); let flags: String = <String as Model>::gen(r); D298 { a, flags } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.a.borrows(f); self.flags.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D299 { pub r#type: u8, #[speedy(default_on_eof, length_type = u7)] pub data: Vec<u8> }
impl Model for D299 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"u7\"}"), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.r#type).val(o); o.push(','); (self.data).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let r#type: u8 = <u8 as Model>::gen(r); let data: Vec<u8> = { gen_upto::<Vec<u8>>(r, "u7") }; D299 { r#type, data } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.r#type.borrows(f); self.data.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D300(pub u16, #[speedy(default_on_eof)] pub Vec<u32>);
impl Model for D300 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<Vec<u32> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: Vec<u32> = <Vec<u32> as Model>::gen(r); D300(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D301 { pub key: u8, #[speedy(default_on_eof)] pub value: Vec<String> }
impl Model for D301 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<Vec<String> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.key).val(o); o.push(','); (self.value).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let key: u8 = <u8 as Model>::gen(r); let value: Vec<String> = <Vec<String> as Model>::gen(r); D301 { key, value } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.key.borrows(f); self.value.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D302 { pub y: u8, #[speedy(default_on_eof)] #[speedy(constant_prefix = b'Z')] pub t1: Option<u16> }
impl Model for D302 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<Option<u16> as Model>::schema(), true, false, &[90])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.y).val(o); o.push(','); (self.t1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: u8 = <u8 as Model>::gen(r); let t1: Option<u16> = <Option<u16> as Model>::gen(r); D302 { y, t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.y.borrows(f); self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D303 { pub a: u8, #[speedy(default_on_eof)] pub bytes: Option<Vec<u16>> }
impl Model for D303 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<Option<Vec<u16>> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.a).val(o); o.push(','); (self.bytes).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let a: u8 = <u8 as Model>::gen(r); let bytes: Option<Vec<u16>> = <Option<Vec<u16>> as Model>::gen(r); D303 { a, bytes } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.a.borrows(f); self.bytes.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D304 { pub bytes: u16, #[speedy(default_on_eof)] #[speedy(constant_prefix = false)] pub r#type: Option<String> }
impl Model for D304 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<Option<String> as Model>::schema(), true, false, &[0])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.bytes).val(o); o.push(','); (self.r#type).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let bytes: u16 = <u16 as Model>::gen(r); let r#type: Option<String> = <Option<String> as Model>::gen(r); D304 { bytes, r#type } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.bytes.borrows(f); self.r#type.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D305(pub u16, #[speedy(default_on_eof)] pub [u16; 3]);
impl Model for D305 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<[u16; 3] as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: [u16; 3] = <[u16; 3] as Model>::gen(r); D305(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D306 { pub error: u16, #[speedy(default_on_eof, length_type = u64)] pub size: BTreeMap<u8, u16> }
impl Model for D306 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(with_lt(<BTreeMap<u8, u16> as Model>::schema(), "{\"l\":\"u64\"}"), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.error).val(o); o.push(','); (self.size).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let error: u16 = <u16 as Model>::gen(r); let size: BTreeMap<u8, u16> = { gen_upto::<BTreeMap<u8, u16>>(r, "u64") }; D306 { error, size } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.error.borrows(f); self.size.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D307 { pub len: u8, #[speedy(default_on_eof, length_type = u64)] pub x: HashSet<u16> }
impl Model for D307 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<HashSet<u16> as Model>::schema(), "{\"l\":\"u64\"}"), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.len).val(o); o.push(','); (self.x).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: u8 = <u8 as Model>::gen(r); let x: HashSet<u16> = { gen_upto::<HashSet<u16>>(r, "u64") }; D307 { len, x } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); self.x.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D308<'a>(pub u8, #[speedy(default_on_eof)] pub Cow<'a, str>);
impl Model for D308<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, str> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: Cow<'static, str> = <Cow<'static, str> as Model>::gen(r); D308(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D309<'a>(pub u8, #[speedy(default_on_eof)] #[speedy(constant_prefix = b"\0\xff\0")] pub Cow<'a, [u16]>);
impl Model for D309<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, [u16]> as Model>::schema(), true, false, &[0, 255, 0])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: Cow<'static, [u16]> = <Cow<'static, [u16]> as Model>::gen(r); D309(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D310<'a> { pub y: u16, #[speedy(default_on_eof)] #[speedy(length_type = u32)] #[speedy(constant_prefix = false)] pub b: Cow<'a, BTreeSet<u8>> }
impl Model for D310<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeSet<u8>> as Model>::schema(), "{\"l\":\"u32\"}"), true, false, &[0])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.y).val(o); o.push(','); (self.b).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: u16 = <u16 as Model>::gen(r); let b: Cow<'static, BTreeSet<u8>> = { gen_upto::<Cow<'static, BTreeSet<u8>>>(r, "u32") }; D310 { y, b } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.y.borrows(f); self.b.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D311(pub u8, #[speedy(default_on_eof)] pub (u8, u16,));
impl Model for D311 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<(u8, u16,) as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: (u8, u16,) = <(u8, u16,) as Model>::gen(r); D311(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D312(pub u8, #[speedy(default_on_eof)] pub [u8; 4]);
impl Model for D312 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<[u8; 4] as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: [u8; 4] = <[u8; 4] as Model>::gen(r); D312(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S313<'a> { #[speedy(varint)] pub flags: u64, #[speedy(varint)] pub y: u64, pub kind: [Cow<'a, BTreeMap<u8, u32>>; 1] }
impl Model for S313<'static> {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(<[Cow<'static, BTreeMap<u8, u32>>; 1] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.flags.val(o); o.push(','); self.y.val(o); o.push(','); self.kind.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let flags: u64 = <u64 as Model>::gen(r); let y: u64 = <u64 as Model>::gen(r); let kind: [Cow<'static, BTreeMap<u8, u32>>; 1] = <[Cow<'static, BTreeMap<u8, u32>>; 1] as Model>::gen(r); S313 { flags, y, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.flags.borrows(f); self.y.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] pub struct S314 { #[speedy(varint)] pub key: u64, pub x: f32, #[speedy(varint)] pub t0: u64, #[speedy(varint)] pub data: u64 }
impl Model for S314 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(<f32 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.key.val(o); o.push(','); self.x.val(o); o.push(','); self.t0.val(o); o.push(','); self.data.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let key: u64 = <u64 as Model>::gen(r); let x: f32 = <f32 as Model>::gen(r); let t0: u64 = <u64 as Model>::gen(r); let data: u64 = <u64 as Model>::gen(r); S314 { key, x, t0, data } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.key.borrows(f); self.x.borrows(f); self.t0.borrows(f); self.data.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S315<'a>(#[speedy(varint)] pub u64, pub Option<E180<'a>>);
impl Model for S315<'static> {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(<Option<E180<'static>> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let t1: Option<E180<'static>> = <Option<E180<'static>> as Model>::gen(r); S315(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S316 { pub flags: BTreeSet<u16>, #[speedy(varint)] pub tag: u64 }
impl Model for S316 {
    fn schema() -> String { struct_schema(&[fieldx(<BTreeSet<u16> as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.flags.val(o); o.push(','); self.tag.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let flags: BTreeSet<u16> = <BTreeSet<u16> as Model>::gen(r); let tag: u64 = <u64 as Model>::gen(r); S316 { flags, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.flags.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S317 { pub bytes: BTreeMap<u16, NonZeroU32> }
impl Model for S317 {
    fn schema() -> String { struct_schema(&[fieldx(<BTreeMap<u16, NonZeroU32> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.bytes.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let bytes: BTreeMap<u16, NonZeroU32> = <BTreeMap<u16, NonZeroU32> as Model>::gen(r); S317 { bytes } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.bytes.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S318(pub Option<S129>, pub Vec<i8>);
impl Model for S318 {
    fn schema() -> String { struct_schema(&[fieldx(<Option<S129> as Model>::schema(), false, false, &[]), fieldx(<Vec<i8> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<S129> = <Option<S129> as Model>::gen(r); let t1: Vec<i8> = <Vec<i8> as Model>::gen(r); S318(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct X319(#[speedy(varint)] pub u64);
impl Model for X319 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); X319(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct X320(#[speedy(varint)] pub u64, pub u8);
impl Model for X320 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); X320(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct X321 { #[speedy(length_type = u64_varint)] pub len: Vec<u16> }
impl Model for X321 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<u16> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.len).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: Vec<u16> = { gen_upto::<Vec<u16>>(r, "varint") }; X321 { len } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct X322 { #[speedy(length_type = u64_varint)] pub data: String, #[speedy(varint)] pub r#type: u64 }
impl Model for X322 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.data).val(o); o.push(','); (self.r#type).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let data: String = { gen_upto::<String>(r, "varint") }; let r#type: u64 = <u64 as Model>::gen(r); X322 { data, r#type } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.data.borrows(f); self.r#type.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(transparent)] pub struct X323(#[speedy(varint)] pub u64);
impl Model for X323 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); X323(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct X324(#[speedy(varint)] pub u64);
impl Model for X324 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); X324(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E325 { #[speedy(tag = 10408565385806703089)] V0 }
impl Model for E325 {
    fn schema() -> String { enum_schema("varint", false, &[(10408565385806703089, vec![])]) }
    fn val(&self, o: &mut String) { match self { E325::V0 => { o.push_str("[1,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => {  E325::V0 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E325::V0 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E326 { #[speedy(tag = 268435456)] V0 { bytes: u64 }, V1(Vec<Option<bool>>) }
impl Model for E326 {
    fn schema() -> String { enum_schema("varint", false, &[(268435456, vec![fieldx(<u64 as Model>::schema(), false, false, &[])]), (268435457, vec![fieldx(<Vec<Option<bool>> as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E326::V0 { bytes: f_0 } => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E326::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => { let bytes: u64 = <u64 as Model>::gen(r); E326::V0 { bytes } } 1 => { let t0: Vec<Option<bool>> = <Vec<Option<bool>> as Model>::gen(r); E326::V1(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E326::V0 { bytes: f_0 } => { f_0.borrows(f); } E326::V1(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u7)] pub enum E327 { #[speedy(tag = 2)] V0(u8, u32, (u8, BTreeSet<u64>, bool,)), V1 { length: u8 }, V2, V3 { slice: u8 }, #[speedy(tag = 61)] V4, #[speedy(tag = 98)] V5(u8) }
impl Model for E327 {
    fn schema() -> String { enum_schema("u7", true, &[(2, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<(u8, BTreeSet<u64>, bool,) as Model>::schema(), false, false, &[])]), (3, vec![fieldx(<u8 as Model>::schema(), false, false, &[])]), (4, vec![]), (5, vec![fieldx(<u8 as Model>::schema(), false, false, &[])]), (61, vec![]), (98, vec![fieldx(<u8 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E327::V0(f_0, f_1, f_2) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E327::V1 { length: f_0 } => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E327::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E327::V3 { slice: f_0 } => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } E327::V4 => { o.push_str("[5,[");  o.push_str("]]"); } E327::V5(f_0) => { o.push_str("[6,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let t0: u8 = (2u64 as u8); let t1: u32 = <u32 as Model>::gen(r); let t2: (u8, BTreeSet<u64>, bool,) = <(u8, BTreeSet<u64>, bool,) as Model>::gen(r); E327::V0(t0, t1, t2) } 1 => { let length: u8 = (3u64 as u8); E327::V1 { length } } 2 => { let slice: u8 = (5u64 as u8); E327::V3 { slice } } 3 => { let t0: u8 = (98u64 as u8); E327::V5(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E327::V0(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E327::V1 { length: f_0 } => { f_0.borrows(f); } E327::V2 => {  } E327::V3 { slice: f_0 } => { f_0.borrows(f); } E327::V4 => {  } E327::V5(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u8)] pub enum E328 { #[speedy(tag = 255)] V0(u8), #[speedy(tag = 253)] V1(u8, BTreeSet<i16>, i8), V2 { t1: u8 } }
impl Model for E328 {
    fn schema() -> String { enum_schema("u8", true, &[(255, vec![fieldx(<u8 as Model>::schema(), false, false, &[])]), (253, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<BTreeSet<i16> as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[])]), (254, vec![fieldx(<u8 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E328::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E328::V1(f_0, f_1, f_2) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E328::V2 { t1: f_0 } => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let t0: u8 = (255u64 as u8); E328::V0(t0) } 1 => { let t0: u8 = (253u64 as u8); let t1: BTreeSet<i16> = <BTreeSet<i16> as Model>::gen(r); let t2: i8 = <i8 as Model>::gen(r); E328::V1(t0, t1, t2) } 2 => { let t1: u8 = (254u64 as u8); E328::V2 { t1 } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E328::V0(f_0) => { f_0.borrows(f); } E328::V1(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E328::V2 { t1: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u8)] pub enum E329 { #[speedy(tag = 16)] V0(u8, i16, u128), #[speedy(tag = 253)] V1(i8) }
impl Model for E329 {
    fn schema() -> String { enum_schema("u8", true, &[(16, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<i16 as Model>::schema(), false, false, &[]), fieldx(<u128 as Model>::schema(), false, false, &[])]), (253, vec![fieldx(<i8 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E329::V0(f_0, f_1, f_2) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E329::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => { let t0: u8 = (16u64 as u8); let t1: i16 = <i16 as Model>::gen(r); let t2: u128 = <u128 as Model>::gen(r); E329::V0(t0, t1, t2) } 1 => { let t0: i8 = (253u64 as i8); E329::V1(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E329::V0(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E329::V1(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u16)] pub enum E330 { V0 { name: u16, result: char, key: u8 }, #[speedy(tag = 65534)] V1 { reader: u16 }, V2(u16), #[speedy(tag = 36611)] V3 { key: u16 }, V4(u16), V5(u16, String) }
impl Model for E330 {
    fn schema() -> String { enum_schema("u16", true, &[(0, vec![fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<char as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]), (65534, vec![fieldx(<u16 as Model>::schema(), false, false, &[])]), (65535, vec![fieldx(<u16 as Model>::schema(), false, false, &[])]), (36611, vec![fieldx(<u16 as Model>::schema(), false, false, &[])]), (36612, vec![fieldx(<u16 as Model>::schema(), false, false, &[])]), (36613, vec![fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E330::V0 { name: f_0, result: f_1, key: f_2 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E330::V1 { reader: f_0 } => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E330::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E330::V3 { key: f_0 } => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } E330::V4(f_0) => { o.push_str("[5,["); f_0.val(o); o.push_str("]]"); } E330::V5(f_0, f_1) => { o.push_str("[6,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let name: u16 = (0u64 as u16); let result: char = <char as Model>::gen(r); let key: u8 = <u8 as Model>::gen(r); E330::V0 { name, result, key } } 1 => { let reader: u16 = (65534u64 as u16); E330::V1 { reader } } 2 => { let t0: u16 = (65535u64 as u16); E330::V2(t0) } 3 => { let key: u16 = (36611u64 as u16); E330::V3 { key } } 4 => { let t0: u16 = (36612u64 as u16); E330::V4(t0) } 5 => { let t0: u16 = (36613u64 as u16); let t1: String = <String as Model>::gen(r); E330::V5(t0, t1) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E330::V0 { name: f_0, result: f_1, key: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E330::V1 { reader: f_0 } => { f_0.borrows(f); } E330::V2(f_0) => { f_0.borrows(f); } E330::V3 { key: f_0 } => { f_0.borrows(f); } E330::V4(f_0) => { f_0.borrows(f); } E330::V5(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u16)] pub enum E331<'a> { V0 { size: u16, error: HashMap<u8, [i128; 0]>, y: S101<'a> }, V1(u16, u128, bool), V2(u16), #[speedy(tag = 28433)] V3(u16) }
impl Model for E331<'static> {
    fn schema() -> String { enum_schema("u16", true, &[(0, vec![fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<HashMap<u8, [i128; 0]> as Model>::schema(), false, false, &[]), fieldx(<S101<'static> as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u128 as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[])]), (2, vec![fieldx(<u16 as Model>::schema(), false, false, &[])]), (28433, vec![fieldx(<u16 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E331::V0 { size: f_0, error: f_1, y: f_2 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E331::V1(f_0, f_1, f_2) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E331::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E331::V3(f_0) => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let size: u16 = (0u64 as u16); let error: HashMap<u8, [i128; 0]> = <HashMap<u8, [i128; 0]> as Model>::gen(r); let y: S101<'static> = <S101<'static> as Model>::gen(r); E331::V0 { size, error, y } } 1 => { let t0: u16 = (1u64 as u16); let t1: u128 = <u128 as Model>::gen(r); let t2: bool = <bool as Model>::gen(r); E331::V1(t0, t1, t2) } 2 => { let t0: u16 = (2u64 as u16); E331::V2(t0) } 3 => { let t0: u16 = (28433u64 as u16); E331::V3(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E331::V0 { size: f_0, error: f_1, y: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E331::V1(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E331::V2(f_0) => { f_0.borrows(f); } E331::V3(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u32)] pub enum E332 { #[speedy(tag = 4294967293)] V0(u32), #[speedy(tag = 8)] V1(u32), #[speedy(tag = 2147483648)] V2(u32) }
impl Model for E332 {
    fn schema() -> String { enum_schema("u32", true, &[(4294967293, vec![fieldx(<u32 as Model>::schema(), false, false, &[])]), (8, vec![fieldx(<u32 as Model>::schema(), false, false, &[])]), (2147483648, vec![fieldx(<u32 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E332::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E332::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E332::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let t0: u32 = (4294967293u64 as u32); E332::V0(t0) } 1 => { let t0: u32 = (8u64 as u32); E332::V1(t0) } 2 => { let t0: u32 = (2147483648u64 as u32); E332::V2(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E332::V0(f_0) => { f_0.borrows(f); } E332::V1(f_0) => { f_0.borrows(f); } E332::V2(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u32, peek_tag)] pub enum E333 { #[speedy(tag = 1)] V0 { size: u32, length: f32, rest: S60 } }
impl Model for E333 {
    fn schema() -> String { enum_schema("u32", true, &[(1, vec![fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<f32 as Model>::schema(), false, false, &[]), fieldx(<S60 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E333::V0 { size: f_0, length: f_1, rest: f_2 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let size: u32 = (1u64 as u32); let length: f32 = <f32 as Model>::gen(r); let rest: S60 = <S60 as Model>::gen(r); E333::V0 { size, length, rest } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E333::V0 { size: f_0, length: f_1, rest: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u64)] pub enum E334 { V0(u64, Vec<f64>, (f64, SystemTime,)) }
impl Model for E334 {
    fn schema() -> String { enum_schema("u64", true, &[(0, vec![fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<Vec<f64> as Model>::schema(), false, false, &[]), fieldx(<(f64, SystemTime,) as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E334::V0(f_0, f_1, f_2) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let t0: u64 = (0u64 as u64); let t1: Vec<f64> = <Vec<f64> as Model>::gen(r); let t2: (f64, SystemTime,) = <(f64, SystemTime,) as Model>::gen(r); E334::V0(t0, t1, t2) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E334::V0(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint, peek_tag)] pub enum E335 { V0(#[speedy(varint)] u64, u128), #[speedy(tag = 876786487)] V1(#[speedy(varint)] u64, BTreeSet<bool>), V2(#[speedy(varint)] u64) }
impl Model for E335 {
    fn schema() -> String { enum_schema("varint", true, &[(0, vec![fieldx(varint_schema(), false, false, &[]), fieldx(<u128 as Model>::schema(), false, false, &[])]), (876786487, vec![fieldx(varint_schema(), false, false, &[]), fieldx(<BTreeSet<bool> as Model>::schema(), false, false, &[])]), (876786488, vec![fieldx(varint_schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E335::V0(f_0, f_1) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E335::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E335::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let t0: u64 = (0u64 as u64); let t1: u128 = <u128 as Model>::gen(r); E335::V0(t0, t1) } 1 => { let t0: u64 = (876786487u64 as u64); let t1: BTreeSet<bool> = <BTreeSet<bool> as Model>::gen(r); E335::V1(t0, t1) } 2 => { let t0: u64 = (876786488u64 as u64); E335::V2(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E335::V0(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E335::V1(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E335::V2(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u32, peek_tag)] pub enum E336<'a> { V0(u32, Option<Vec<bool>>, u16), V1(u32, Cow<'a, [u8]>, Option<i8>), #[speedy(tag = 5)] V2(u32, S61, u8), #[speedy(tag = 2740283545)] V3(u32, Option<u8>), #[speedy(tag = 1024)] V4 { reader: u32 }, V5(u32) }
impl Model for E336<'static> {
    fn schema() -> String { enum_schema("u32", true, &[(0, vec![fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<Option<Vec<bool>> as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, [u8]> as Model>::schema(), false, false, &[]), fieldx(<Option<i8> as Model>::schema(), false, false, &[])]), (5, vec![fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<S61 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]), (2740283545, vec![fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<Option<u8> as Model>::schema(), false, false, &[])]), (1024, vec![fieldx(<u32 as Model>::schema(), false, false, &[])]), (1025, vec![fieldx(<u32 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E336::V0(f_0, f_1, f_2) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E336::V1(f_0, f_1, f_2) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E336::V2(f_0, f_1, f_2) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E336::V3(f_0, f_1) => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E336::V4 { reader: f_0 } => { o.push_str("[5,["); f_0.val(o); o.push_str("]]"); } E336::V5(f_0) => { o.push_str("[6,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let t0: u32 = (0u64 as u32); let t1: Option<Vec<bool>> = <Option<Vec<bool>> as Model>::gen(r); let t2: u16 = <u16 as Model>::gen(r); E336::V0(t0, t1, t2) } 1 => { let t0: u32 = (1u64 as u32); let t1: Cow<'static, [u8]> = <Cow<'static, [u8]> as Model>::gen(r); let t2: Option<i8> = <Option<i8> as Model>::gen(r); E336::V1(t0, t1, t2) } 2 => { let t0: u32 = (5u64 as u32); let t1: S61 = <S61 as Model>::gen(r); let t2: u8 = <u8 as Model>::gen(r); E336::V2(t0, t1, t2) } 3 => { let t0: u32 = (2740283545u64 as u32); let t1: Option<u8> = <Option<u8> as Model>::gen(r); E336::V3(t0, t1) } 4 => { let reader: u32 = (1024u64 as u32); E336::V4 { reader } } 5 => { let t0: u32 = (1025u64 as u32); E336::V5(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E336::V0(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E336::V1(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E336::V2(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E336::V3(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E336::V4 { reader: f_0 } => { f_0.borrows(f); } E336::V5(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u64_varint)] pub enum E337 { V0(#[speedy(varint)] u64, Vec<SystemTime>), #[speedy(tag = 12906965497435)] V1(#[speedy(varint)] u64), V2, #[speedy(tag = 149)] V3(#[speedy(varint)] u64, bool) }
impl Model for E337 {
    fn schema() -> String { enum_schema("varint", true, &[(0, vec![fieldx(varint_schema(), false, false, &[]), fieldx(<Vec<SystemTime> as Model>::schema(), false, false, &[])]), (12906965497435, vec![fieldx(varint_schema(), false, false, &[])]), (12906965497436, vec![]), (149, vec![fieldx(varint_schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E337::V0(f_0, f_1) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E337::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E337::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E337::V3(f_0, f_1) => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let t0: u64 = (0u64 as u64); let t1: Vec<SystemTime> = <Vec<SystemTime> as Model>::gen(r); E337::V0(t0, t1) } 1 => { let t0: u64 = (12906965497435u64 as u64); E337::V1(t0) } 2 => { let t0: u64 = (149u64 as u64); let t1: bool = <bool as Model>::gen(r); E337::V3(t0, t1) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E337::V0(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E337::V1(f_0) => { f_0.borrows(f); } E337::V2 => {  } E337::V3(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(peek_tag, tag_type = u64_varint)] pub enum E338 { #[speedy(tag = 60971953)] V0 { #[speedy(varint)] b: u64, t1: String, t0: bool }, #[speedy(tag = 51999746158319258)] V1 { #[speedy(varint)] x: u64 } }
impl Model for E338 {
    fn schema() -> String { enum_schema("varint", true, &[(60971953, vec![fieldx(varint_schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[])]), (51999746158319258, vec![fieldx(varint_schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E338::V0 { b: f_0, t1: f_1, t0: f_2 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E338::V1 { x: f_0 } => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => { let b: u64 = (60971953u64 as u64); let t1: String = <String as Model>::gen(r); let t0: bool = <bool as Model>::gen(r); E338::V0 { b, t1, t0 } } 1 => { let x: u64 = (51999746158319258u64 as u64); E338::V1 { x } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E338::V0 { b: f_0, t1: f_1, t0: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E338::V1 { x: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G339<T>(pub T, pub bool);
impl<T: Model + Clone + 'static> Model for G339<T> {
    fn schema() -> String { struct_schema(&[fieldx(<T as Model>::schema(), false, false, &[]), fieldx(<bool as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: T = <T as Model>::gen(r); let t1: bool = <bool as Model>::gen(r); G339(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G340<T> { pub a: Vec<T>, pub result: HashMap<u16, T>, pub slice: u128, pub reader: T }
impl<T: Model + Clone + 'static> Model for G340<T> {
    fn schema() -> String { struct_schema(&[fieldx(<Vec<T> as Model>::schema(), false, false, &[]), fieldx(<HashMap<u16, T> as Model>::schema(), false, false, &[]), fieldx(<u128 as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.a.val(o); o.push(','); self.result.val(o); o.push(','); self.slice.val(o); o.push(','); self.reader.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let a: Vec<T> = <Vec<T> as Model>::gen(r); let result: HashMap<u16, T> = <HashMap<u16, T> as Model>::gen(r); let slice: u128 = <u128 as Model>::gen(r); let reader: T = <T as Model>::gen(r); G340 { a, result, slice, reader } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.a.borrows(f); self.result.borrows(f); self.slice.borrows(f); self.reader.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G341<T> { pub flags: (), pub t1: T }
impl<T: Model + Clone + 'static> Model for G341<T> {
    fn schema() -> String { struct_schema(&[fieldx(<() as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.flags.val(o); o.push(','); self.t1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let flags: () = <() as Model>::gen(r); let t1: T = <T as Model>::gen(r); G341 { flags, t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.flags.borrows(f); self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G342<T, U>(pub T, pub U);
impl<T: Model + Clone + 'static, U: Model + Clone + 'static> Model for G342<T, U> {
    fn schema() -> String { struct_schema(&[fieldx(<T as Model>::schema(), false, false, &[]), fieldx(<U as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: T = <T as Model>::gen(r); let t1: U = <U as Model>::gen(r); G342(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G343<T> { pub key: Vec<Option<T>>, pub x: Box<T>, pub data: T }
impl<T: Model + Clone + 'static> Model for G343<T> {
    fn schema() -> String { struct_schema(&[fieldx(<Vec<Option<T>> as Model>::schema(), false, false, &[]), fieldx(<Box<T> as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.key.val(o); o.push(','); self.x.val(o); o.push(','); self.data.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let key: Vec<Option<T>> = <Vec<Option<T>> as Model>::gen(r); let x: Box<T> = <Box<T> as Model>::gen(r); let data: T = <T as Model>::gen(r); G343 { key, x, data } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.key.borrows(f); self.x.borrows(f); self.data.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G344<T>(pub [T; 3], pub HashMap<u16, T>, pub T);
impl<T: Model + Clone + 'static> Model for G344<T> {
    fn schema() -> String { struct_schema(&[fieldx(<[T; 3] as Model>::schema(), false, false, &[]), fieldx(<HashMap<u16, T> as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: [T; 3] = <[T; 3] as Model>::gen(r); let t1: HashMap<u16, T> = <HashMap<u16, T> as Model>::gen(r); let t2: T = <T as Model>::gen(r); G344(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G345<T>(pub Vec<T>, pub Vec<Option<T>>, pub [T; 3], pub T);
impl<T: Model + Clone + 'static> Model for G345<T> {
    fn schema() -> String { struct_schema(&[fieldx(<Vec<T> as Model>::schema(), false, false, &[]), fieldx(<Vec<Option<T>> as Model>::schema(), false, false, &[]), fieldx(<[T; 3] as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<T> = <Vec<T> as Model>::gen(r); let t1: Vec<Option<T>> = <Vec<Option<T>> as Model>::gen(r); let t2: [T; 3] = <[T; 3] as Model>::gen(r); let t3: T = <T as Model>::gen(r); G345(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G346<T>(pub Result<T, u16>, pub T, pub u64);
impl<T: Model + Clone + 'static> Model for G346<T> {
    fn schema() -> String { struct_schema(&[fieldx(<Result<T, u16> as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Result<T, u16> = <Result<T, u16> as Model>::gen(r); let t1: T = <T as Model>::gen(r); let t2: u64 = <u64 as Model>::gen(r); G346(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G347<T, U> { pub r#type: String, pub kind: BTreeMap<u8, U>, pub data: Vec<Option<T>>, pub rest: T, pub slice: U }
impl<T: Model + Clone + 'static, U: Model + Clone + 'static> Model for G347<T, U> {
    fn schema() -> String { struct_schema(&[fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<BTreeMap<u8, U> as Model>::schema(), false, false, &[]), fieldx(<Vec<Option<T>> as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[]), fieldx(<U as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.r#type.val(o); o.push(','); self.kind.val(o); o.push(','); self.data.val(o); o.push(','); self.rest.val(o); o.push(','); self.slice.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let r#type: String = <String as Model>::gen(r); let kind: BTreeMap<u8, U> = <BTreeMap<u8, U> as Model>::gen(r); let data: Vec<Option<T>> = <Vec<Option<T>> as Model>::gen(r); let rest: T = <T as Model>::gen(r); let slice: U = <U as Model>::gen(r); G347 { r#type, kind, data, rest, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.r#type.borrows(f); self.kind.borrows(f); self.data.borrows(f); self.rest.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G348<T>(#[speedy(length_type = u32)] pub Vec<Option<T>>, pub [T; 1], pub T);
impl<T: Model + Clone + 'static> Model for G348<T> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<Option<T>> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(<[T; 1] as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<Option<T>> = { gen_upto::<Vec<Option<T>>>(r, "u32") }; let t1: [T; 1] = <[T; 1] as Model>::gen(r); let t2: T = <T as Model>::gen(r); G348(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G349<T> { pub tag: Result<T, u16>, pub x: T }
impl<T: Model + Clone + 'static> Model for G349<T> {
    fn schema() -> String { struct_schema(&[fieldx(<Result<T, u16> as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.tag.val(o); o.push(','); self.x.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let tag: Result<T, u16> = <Result<T, u16> as Model>::gen(r); let x: T = <T as Model>::gen(r); G349 { tag, x } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.tag.borrows(f); self.x.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G350<T, U>(#[speedy(constant_prefix = '\u{20ac}')] pub Vec<Option<T>>, #[speedy(constant_prefix = 7u8)] pub (u8, U), #[speedy(constant_prefix = b'Z')] pub T, #[speedy(constant_prefix = -128i8)] pub U);
impl<T: Model + Clone + 'static, U: Model + Clone + 'static> Model for G350<T, U> {
    fn schema() -> String { struct_schema(&[fieldx(<Vec<Option<T>> as Model>::schema(), false, false, &[226, 130, 172]), fieldx(<(u8, U) as Model>::schema(), false, false, &[7]), fieldx(<T as Model>::schema(), false, false, &[90]), fieldx(<U as Model>::schema(), false, false, &[128])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<Option<T>> = <Vec<Option<T>> as Model>::gen(r); let t1: (u8, U) = <(u8, U) as Model>::gen(r); let t2: T = <T as Model>::gen(r); let t3: U = <U as Model>::gen(r); G350(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G351<T>(pub Option<Vec<T>>, #[speedy(length_type = u32)] pub String, pub T);
impl<T: Model + Clone + 'static> Model for G351<T> {
    fn schema() -> String { struct_schema(&[fieldx(<Option<Vec<T>> as Model>::schema(), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<Vec<T>> = <Option<Vec<T>> as Model>::gen(r); let t1: String = { gen_upto::<String>(r, "u32") }; let t2: T = <T as Model>::gen(r); G351(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u32)] pub enum H352<T> { V0(Box<T>, T), V1(Result<T, u16>), Z }
impl<T: Model + Clone + 'static> Model for H352<T> {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(<Box<T> as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<Result<T, u16> as Model>::schema(), false, false, &[])]), (2, vec![])]) }
    fn val(&self, o: &mut String) { match self { H352::V0(f_0, f_1) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } H352::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } H352::Z => { o.push_str("[3,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let t0: Box<T> = <Box<T> as Model>::gen(r); let t1: T = <T as Model>::gen(r); H352::V0(t0, t1) } 1 => { let t0: Result<T, u16> = <Result<T, u16> as Model>::gen(r); H352::V1(t0) } 2 => {  H352::Z } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { H352::V0(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } H352::V1(f_0) => { f_0.borrows(f); } H352::Z => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum H353<T> { V0 { a: T, size: T }, V1 { kind: HashMap<u16, T>, size: Vec<T> }, V2 { rest: Vec<T> }, Z }
impl<T: Model + Clone + 'static> Model for H353<T> {
    fn schema() -> String { enum_schema("u64", false, &[(0, vec![fieldx(<T as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<HashMap<u16, T> as Model>::schema(), false, false, &[]), fieldx(<Vec<T> as Model>::schema(), false, false, &[])]), (2, vec![fieldx(<Vec<T> as Model>::schema(), false, false, &[])]), (3, vec![])]) }
    fn val(&self, o: &mut String) { match self { H353::V0 { a: f_0, size: f_1 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } H353::V1 { kind: f_0, size: f_1 } => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } H353::V2 { rest: f_0 } => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } H353::Z => { o.push_str("[4,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let a: T = <T as Model>::gen(r); let size: T = <T as Model>::gen(r); H353::V0 { a, size } } 1 => { let kind: HashMap<u16, T> = <HashMap<u16, T> as Model>::gen(r); let size: Vec<T> = <Vec<T> as Model>::gen(r); H353::V1 { kind, size } } 2 => { let rest: Vec<T> = <Vec<T> as Model>::gen(r); H353::V2 { rest } } 3 => {  H353::Z } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { H353::V0 { a: f_0, size: f_1 } => { f_0.borrows(f); f_1.borrows(f); } H353::V1 { kind: f_0, size: f_1 } => { f_0.borrows(f); f_1.borrows(f); } H353::V2 { rest: f_0 } => { f_0.borrows(f); } H353::Z => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u32)] pub enum H354<T> { V0(HashMap<u16, T>, T), V1(Vec<T>), Z }
impl<T: Model + Clone + 'static> Model for H354<T> {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(<HashMap<u16, T> as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<Vec<T> as Model>::schema(), false, false, &[])]), (2, vec![])]) }
    fn val(&self, o: &mut String) { match self { H354::V0(f_0, f_1) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } H354::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } H354::Z => { o.push_str("[3,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let t0: HashMap<u16, T> = <HashMap<u16, T> as Model>::gen(r); let t1: T = <T as Model>::gen(r); H354::V0(t0, t1) } 1 => { let t0: Vec<T> = <Vec<T> as Model>::gen(r); H354::V1(t0) } 2 => {  H354::Z } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { H354::V0(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } H354::V1(f_0) => { f_0.borrows(f); } H354::Z => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16)] pub enum H355<T, U> { V0(u8, BTreeMap<u8, T>, T, U), V1(Vec<U>), Z }
impl<T: Model + Clone + 'static, U: Model + Clone + 'static> Model for H355<T, U> {
    fn schema() -> String { enum_schema("u16", false, &[(0, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<BTreeMap<u8, T> as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[]), fieldx(<U as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<Vec<U> as Model>::schema(), false, false, &[])]), (2, vec![])]) }
    fn val(&self, o: &mut String) { match self { H355::V0(f_0, f_1, f_2, f_3) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push(','); f_3.val(o); o.push_str("]]"); } H355::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } H355::Z => { o.push_str("[3,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let t0: u8 = <u8 as Model>::gen(r); let t1: BTreeMap<u8, T> = <BTreeMap<u8, T> as Model>::gen(r); let t2: T = <T as Model>::gen(r); let t3: U = <U as Model>::gen(r); H355::V0(t0, t1, t2, t3) } 1 => { let t0: Vec<U> = <Vec<U> as Model>::gen(r); H355::V1(t0) } 2 => {  H355::Z } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { H355::V0(f_0, f_1, f_2, f_3) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); f_3.borrows(f); } H355::V1(f_0) => { f_0.borrows(f); } H355::Z => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u7)] pub enum H356<T> { V0 { size: Vec<Option<T>>, t0: T }, V1(BTreeMap<u8, T>, String), Z }
impl<T: Model + Clone + 'static> Model for H356<T> {
    fn schema() -> String { enum_schema("u7", false, &[(0, vec![fieldx(<Vec<Option<T>> as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]), (1, vec![fieldx(<BTreeMap<u8, T> as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[])]), (2, vec![])]) }
    fn val(&self, o: &mut String) { match self { H356::V0 { size: f_0, t0: f_1 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } H356::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } H356::Z => { o.push_str("[3,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let size: Vec<Option<T>> = <Vec<Option<T>> as Model>::gen(r); let t0: T = <T as Model>::gen(r); H356::V0 { size, t0 } } 1 => { let t0: BTreeMap<u8, T> = <BTreeMap<u8, T> as Model>::gen(r); let t1: String = <String as Model>::gen(r); H356::V1(t0, t1) } 2 => {  H356::Z } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { H356::V0 { size: f_0, t0: f_1 } => { f_0.borrows(f); f_1.borrows(f); } H356::V1(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } H356::Z => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct G357<T>(pub T);
impl<T: Model + Clone + 'static> Model for G357<T> {
    fn schema() -> String { struct_schema(&[fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: T = <T as Model>::gen(r); G357(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct G358<T>(pub u16, pub T);
impl<T: Model + Clone + 'static> Model for G358<T> {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: T = <T as Model>::gen(r); G358(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(transparent)] pub struct G359<T>(pub T);
impl<T: Model + Clone + 'static> Model for G359<T> {
    fn schema() -> String { struct_schema(&[fieldx(T::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { G359(T::gen(r)) }
}
#[derive(Clone, Readable, Writable)] pub struct G360<T>(pub T);
impl<T: Model + Clone + 'static> Model for G360<T> {
    fn schema() -> String { struct_schema(&[fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: T = <T as Model>::gen(r); G360(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct G361<T> { pub reader: [T; 2], pub result: u8, pub error: u32, pub len: T }
impl<T: Model + Clone + 'static> Model for G361<T> {
    fn schema() -> String { struct_schema(&[fieldx(<[T; 2] as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<T as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.reader.val(o); o.push(','); self.result.val(o); o.push(','); self.error.val(o); o.push(','); self.len.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let reader: [T; 2] = <[T; 2] as Model>::gen(r); let result: u8 = <u8 as Model>::gen(r); let error: u32 = <u32 as Model>::gen(r); let len: T = <T as Model>::gen(r); G361 { reader, result, error, len } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.reader.borrows(f); self.result.borrows(f); self.error.borrows(f); self.len.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum R362 { V0(u16), V1(HashMap<u16, R362>, String), V2(Option<Box<R362>>), V3(u16, (Box<R362>, u8)) }
impl Model for R362 {
    fn schema() -> String { deeper(|d| if d > 3 { any_schema() } else { enum_schema("u64", false, &[(0, vec![field(<u16 as Model>::schema())]), (1, vec![field(<HashMap<u16, R362> as Model>::schema()), field(<String as Model>::schema())]), (2, vec![field(<Option<Box<R362>> as Model>::schema())]), (3, vec![field(<u16 as Model>::schema()), field(<(Box<R362>, u8) as Model>::schema())])]) }) }
    fn val(&self, o: &mut String) { match self { R362::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } R362::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } R362::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } R362::V3(f_0, f_1) => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|d| match if d >= 3 { 0 } else { r.below(4) } { 0 => R362::V0(<u16 as Model>::gen(r)), 1 => R362::V1(<HashMap<u16, R362> as Model>::gen(r), <String as Model>::gen(r)), 2 => R362::V2(<Option<Box<R362>> as Model>::gen(r)), 3 => R362::V3(<u16 as Model>::gen(r), <(Box<R362>, u8) as Model>::gen(r)), _ => unreachable!() }) }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum R363 { V0(u16), V1(Option<Vec<R363>>, u8), V2(HashMap<u16, R363>, String), V3(Option<Box<R363>>, u16), V4(bool) }
impl Model for R363 {
    fn schema() -> String { deeper(|d| if d > 3 { any_schema() } else { enum_schema("u8", false, &[(0, vec![field(<u16 as Model>::schema())]), (1, vec![field(<Option<Vec<R363>> as Model>::schema()), field(<u8 as Model>::schema())]), (2, vec![field(<HashMap<u16, R363> as Model>::schema()), field(<String as Model>::schema())]), (3, vec![field(<Option<Box<R363>> as Model>::schema()), field(<u16 as Model>::schema())]), (4, vec![field(<bool as Model>::schema())])]) }) }
    fn val(&self, o: &mut String) { match self { R363::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } R363::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } R363::V2(f_0, f_1) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } R363::V3(f_0, f_1) => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } R363::V4(f_0) => { o.push_str("[5,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|d| match if d >= 3 { 0 } else { r.below(5) } { 0 => R363::V0(<u16 as Model>::gen(r)), 1 => R363::V1(<Option<Vec<R363>> as Model>::gen(r), <u8 as Model>::gen(r)), 2 => R363::V2(<HashMap<u16, R363> as Model>::gen(r), <String as Model>::gen(r)), 3 => R363::V3(<Option<Box<R363>> as Model>::gen(r), <u16 as Model>::gen(r)), 4 => R363::V4(<bool as Model>::gen(r)), _ => unreachable!() }) }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum R364 { V0(u16), V1(u8, Box<[R364]>), V2([u8; 4]) }
impl Model for R364 {
    fn schema() -> String { deeper(|d| if d > 3 { any_schema() } else { enum_schema("u64", false, &[(0, vec![field(<u16 as Model>::schema())]), (1, vec![field(<u8 as Model>::schema()), field(<Box<[R364]> as Model>::schema())]), (2, vec![field(<[u8; 4] as Model>::schema())])]) }) }
    fn val(&self, o: &mut String) { match self { R364::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } R364::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } R364::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|d| match if d >= 3 { 0 } else { r.below(3) } { 0 => R364::V0(<u16 as Model>::gen(r)), 1 => R364::V1(<u8 as Model>::gen(r), <Box<[R364]> as Model>::gen(r)), 2 => R364::V2(<[u8; 4] as Model>::gen(r)), _ => unreachable!() }) }
}
#[derive(Clone, Readable, Writable)] pub struct R365 { pub n: u8, pub kids: Vec<R366>, pub end: u16 }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum R366 { One(Box<R365>), Two { a: Option<Box<R366>>, b: u8 }, Leaf(u32) }
impl Model for R365 {
    fn schema() -> String { deeper(|d| if d > 5 { any_schema() } else { struct_schema(&[field(u8::schema()), field(<Vec<R366> as Model>::schema()), field(u16::schema())]) }) }
    fn val(&self, o: &mut String) { o.push('['); self.n.val(o); o.push(','); self.kids.val(o); o.push(','); self.end.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|d| R365 { n: u8::gen(r), kids: if d >= 3 { vec![] } else { Model::gen(r) }, end: u16::gen(r) }) }
}
impl Model for R366 {
    fn schema() -> String { deeper(|d| if d > 5 { any_schema() } else { enum_schema("u8", false, &[(0, vec![field(<R365 as Model>::schema())]), (1, vec![field(<Option<Box<R366>> as Model>::schema()), field(u8::schema())]), (2, vec![field(u32::schema())])]) }) }
    fn val(&self, o: &mut String) { match self { R366::One(x) => { o.push_str("[1,["); x.val(o); } R366::Two { a, b } => { o.push_str("[2,["); a.val(o); o.push(','); b.val(o); } R366::Leaf(x) => { o.push_str("[3,["); x.val(o); } } o.push_str("]]"); }
    fn gen(r: &mut Rng) -> Self { deeper(|d| match if d >= 4 { 2 } else { r.below(3) } { 0 => R366::One(Model::gen(r)), 1 => R366::Two { a: if d >= 3 { None } else { Model::gen(r) }, b: u8::gen(r) }, _ => R366::Leaf(u32::gen(r)) }) }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum R367 { V0(u16), V1(u8, Option<Box<R367>>), V2(u8) }
impl Model for R367 {
    fn schema() -> String { deeper(|d| if d > 3 { any_schema() } else { enum_schema("u64", false, &[(0, vec![field(<u16 as Model>::schema())]), (1, vec![field(<u8 as Model>::schema()), field(<Option<Box<R367>> as Model>::schema())]), (2, vec![field(<u8 as Model>::schema())])]) }) }
    fn val(&self, o: &mut String) { match self { R367::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } R367::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } R367::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|d| match if d >= 3 { 0 } else { r.below(3) } { 0 => R367::V0(<u16 as Model>::gen(r)), 1 => R367::V1(<u8 as Model>::gen(r), <Option<Box<R367>> as Model>::gen(r)), 2 => R367::V2(<u8 as Model>::gen(r)), _ => unreachable!() }) }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum R368 { V0, V1(Box<[R368]>) }
impl Model for R368 {
    fn schema() -> String { deeper(|d| if d > 3 { any_schema() } else { enum_schema("u8", false, &[(0, vec![]), (1, vec![field(<Box<[R368]> as Model>::schema())])]) }) }
    fn val(&self, o: &mut String) { match self { R368::V0 => { o.push_str("[1,[");  o.push_str("]]"); } R368::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|d| match if d >= 3 { 0 } else { r.below(2) } { 0 => R368::V0, 1 => R368::V1(<Box<[R368]> as Model>::gen(r)), _ => unreachable!() }) }
}
#[derive(Clone, Readable, Writable)] pub struct R369 { pub n: u8, pub kids: Vec<R370>, pub end: u16 }
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum R370 { One(Box<R369>), Two { a: Option<Box<R370>>, b: u8 }, Leaf(u32) }
impl Model for R369 {
    fn schema() -> String { deeper(|d| if d > 5 { any_schema() } else { struct_schema(&[field(u8::schema()), field(<Vec<R370> as Model>::schema()), field(u16::schema())]) }) }
    fn val(&self, o: &mut String) { o.push('['); self.n.val(o); o.push(','); self.kids.val(o); o.push(','); self.end.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|d| R369 { n: u8::gen(r), kids: if d >= 3 { vec![] } else { Model::gen(r) }, end: u16::gen(r) }) }
}
impl Model for R370 {
    fn schema() -> String { deeper(|d| if d > 5 { any_schema() } else { enum_schema("u8", false, &[(0, vec![field(<R369 as Model>::schema())]), (1, vec![field(<Option<Box<R370>> as Model>::schema()), field(u8::schema())]), (2, vec![field(u32::schema())])]) }) }
    fn val(&self, o: &mut String) { match self { R370::One(x) => { o.push_str("[1,["); x.val(o); } R370::Two { a, b } => { o.push_str("[2,["); a.val(o); o.push(','); b.val(o); } R370::Leaf(x) => { o.push_str("[3,["); x.val(o); } } o.push_str("]]"); }
    fn gen(r: &mut Rng) -> Self { deeper(|d| match if d >= 4 { 2 } else { r.below(3) } { 0 => R370::One(Model::gen(r)), 1 => R370::Two { a: if d >= 3 { None } else { Model::gen(r) }, b: u8::gen(r) }, _ => R370::Leaf(u32::gen(r)) }) }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct Vz {}
impl Model for Vz { fn schema() -> String { struct_schema(&[]) } fn val(&self, o: &mut String) { o.push_str("[]") } fn gen(_: &mut Rng) -> Self { Vz {} } fn borrows(&self, _: &mut dyn FnMut(Borrow)) {} }
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct V371 { pub key: u16, pub y: u8 }
impl Model for V371 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); ({self.key}).val(o); o.push(','); ({self.y}).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let key: u16 = <u16 as Model>::gen(r); let y: u8 = <u8 as Model>::gen(r); V371 { key, y } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct V372(pub i8, pub i8);
impl Model for V372 {
    fn schema() -> String { struct_schema(&[fieldx(<i8 as Model>::schema(), false, false, &[]), fieldx(<i8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); ({self.0}).val(o); o.push(','); ({self.1}).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: i8 = <i8 as Model>::gen(r); let t1: i8 = <i8 as Model>::gen(r); V372(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(transparent)] pub struct V373(pub u32);
impl Model for V373 {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = <u32 as Model>::gen(r); V373(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct V374(pub u64, pub u32, pub u16);
impl Model for V374 {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); ({self.0}).val(o); o.push(','); ({self.1}).val(o); o.push(','); ({self.2}).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let t1: u32 = <u32 as Model>::gen(r); let t2: u16 = <u16 as Model>::gen(r); V374(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {  let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V375<'a>(#[speedy(length_type = u64)] pub &'a [i8], pub u32);
impl Model for V375<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static [i8] as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static [i8] = { gen_upto::<&'static [i8]>(r, "u64") }; let t1: u32 = <u32 as Model>::gen(r); V375(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V376<'a> { pub name: &'a [u64], pub t0: &'a [u16] }
impl Model for V376<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<&'static [u64] as Model>::schema(), false, false, &[]), fieldx(<&'static [u16] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.name).val(o); o.push(','); (self.t0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: &'static [u64] = <&'static [u64] as Model>::gen(r); let t0: &'static [u16] = <&'static [u16] as Model>::gen(r); V376 { name, t0 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); self.t0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V377<'a>(pub u32, pub u32, #[speedy(constant_prefix = '\u{20ac}')] pub &'a [u16]);
impl Model for V377<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<&'static [u16] as Model>::schema(), false, false, &[226, 130, 172])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = <u32 as Model>::gen(r); let t1: u32 = <u32 as Model>::gen(r); let t2: &'static [u16] = <&'static [u16] as Model>::gen(r); V377(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V378<'a>(pub u64, pub &'a [u32]);
impl Model for V378<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<&'static [u32] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let t1: &'static [u32] = <&'static [u32] as Model>::gen(r); V378(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V379<'a> { #[speedy(length_type = u7)] pub result: &'a [V374] }
impl Model for V379<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static [V374] as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.result).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: &'static [V374] = { gen_upto::<&'static [V374]>(r, "u7") }; V379 { result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.result.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V380<'a>(pub u32, #[speedy(length_type = u8)] pub &'a [u64], pub u8);
impl Model for V380<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static [u64] as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = <u32 as Model>::gen(r); let t1: &'static [u64] = { gen_upto::<&'static [u64]>(r, "u8") }; let t2: u8 = <u8 as Model>::gen(r); V380(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V381<'a> { pub len: u16, pub b: &'a [i16] }
impl Model for V381<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<&'static [i16] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.len).val(o); o.push(','); (self.b).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: u16 = <u16 as Model>::gen(r); let b: &'static [i16] = <&'static [i16] as Model>::gen(r); V381 { len, b } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); self.b.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V382<'a>(#[speedy(default_on_eof)] pub &'a [V372]);
impl Model for V382<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<&'static [V372] as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static [V372] = <&'static [V372] as Model>::gen(r); V382(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V383<'a>(pub u64, pub u32, #[speedy(default_on_eof)] pub &'a [u32]);
impl Model for V383<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<&'static [u32] as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let t1: u32 = <u32 as Model>::gen(r); let t2: &'static [u32] = <&'static [u32] as Model>::gen(r); V383(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V384<'a>(pub u32, #[speedy(length = t0)] pub &'a [V374], pub u8);
impl Model for V384<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static [V374] as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"f\",\"i\":1},\"nm\":\"t1\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = (r.below(24) as u32); let t1: &'static [V374] = { let n = (t0) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <&'static [V374] as GenN>::gen_n(r, n) }; let t2: u8 = <u8 as Model>::gen(r); V384(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V385<'a> { pub a: u16, #[speedy(constant_prefix = "ab\u{e9}")] pub bytes: &'a [V373], pub x: &'a [V374] }
impl Model for V385<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<&'static [V373] as Model>::schema(), false, false, &[97, 98, 195, 169]), fieldx(<&'static [V374] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.a).val(o); o.push(','); (self.bytes).val(o); o.push(','); (self.x).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let a: u16 = <u16 as Model>::gen(r); let bytes: &'static [V373] = <&'static [V373] as Model>::gen(r); let x: &'static [V374] = <&'static [V374] as Model>::gen(r); V385 { a, bytes, x } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.a.borrows(f); self.bytes.borrows(f); self.x.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V386<'a> { pub count: u16, #[speedy(length_type = u64_varint)] pub r#type: &'a [i8], pub result: u32 }
impl Model for V386<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static [i8] as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.count).val(o); o.push(','); (self.r#type).val(o); o.push(','); (self.result).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: u16 = <u16 as Model>::gen(r); let r#type: &'static [i8] = { gen_upto::<&'static [i8]>(r, "varint") }; let result: u32 = <u32 as Model>::gen(r); V386 { count, r#type, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); self.r#type.borrows(f); self.result.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V387<'a>(pub &'a [V373]);
impl Model for V387<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<&'static [V373] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static [V373] = <&'static [V373] as Model>::gen(r); V387(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V388<'a> { pub out: u64, pub y: u16, #[speedy(length = ..)] pub name: &'a [u128] }
impl Model for V388<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static [u128] as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.out).val(o); o.push(','); (self.y).val(o); o.push(','); (self.name).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: u64 = <u64 as Model>::gen(r); let y: u16 = <u16 as Model>::gen(r); let name: &'static [u128] = <&'static [u128] as Model>::gen(r); V388 { out, y, name } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.out.borrows(f); self.y.borrows(f); self.name.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V389<'a>(pub u32, pub u64, #[speedy(length = ..)] pub &'a [u16]);
impl Model for V389<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static [u16] as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u32 = <u32 as Model>::gen(r); let t1: u64 = <u64 as Model>::gen(r); let t2: &'static [u16] = <&'static [u16] as Model>::gen(r); V389(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V390<'a>(pub u64, pub u64, pub &'a [V373]);
impl Model for V390<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(<&'static [V373] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let t1: u64 = <u64 as Model>::gen(r); let t2: &'static [V373] = <&'static [V373] as Model>::gen(r); V390(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V391<'a>(pub u16, pub u8, pub &'a [V374]);
impl Model for V391<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<&'static [V374] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); let t2: &'static [V374] = <&'static [V374] as Model>::gen(r); V391(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V392<'a>(pub u16, pub u32, #[speedy(length_type = u8)] pub Option<&'a [i8]>);
impl Model for V392<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Option<&'static [i8]> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u16 = <u16 as Model>::gen(r); let t1: u32 = <u32 as Model>::gen(r); let t2: Option<&'static [i8]> = { gen_upto::<Option<&'static [i8]>>(r, "u8") }; V392(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V393<'a>(pub u8, pub u32, pub &'a [i16]);
impl Model for V393<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[]), fieldx(<&'static [i16] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(','); (self.2).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u8 = <u8 as Model>::gen(r); let t1: u32 = <u32 as Model>::gen(r); let t2: &'static [i16] = <&'static [i16] as Model>::gen(r); V393(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V394<'a>(pub Option<&'a [f64]>);
impl Model for V394<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<Option<&'static [f64]> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<&'static [f64]> = <Option<&'static [f64]> as Model>::gen(r); V394(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V395<'a>(pub &'a [u16]);
impl Model for V395<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<&'static [u16] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static [u16] = <&'static [u16] as Model>::gen(r); V395(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V396<'a> { pub bytes: u64, #[speedy(length = ..)] pub rest: &'a [V371] }
impl Model for V396<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u64 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static [V371] as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.bytes).val(o); o.push(','); (self.rest).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let bytes: u64 = <u64 as Model>::gen(r); let rest: &'static [V371] = <&'static [V371] as Model>::gen(r); V396 { bytes, rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.bytes.borrows(f); self.rest.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V397<'a>(#[speedy(constant_prefix = b'Z')] pub &'a [f64], pub u8);
impl Model for V397<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<&'static [f64] as Model>::schema(), false, false, &[90]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static [f64] = <&'static [f64] as Model>::gen(r); let t1: u8 = <u8 as Model>::gen(r); V397(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V398<'a>(#[speedy(default_on_eof)] pub &'a [V373]);
impl Model for V398<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<&'static [V373] as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static [V373] = <&'static [V373] as Model>::gen(r); V398(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V399<'a>(pub &'a [u16]);
impl Model for V399<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<&'static [u16] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static [u16] = <&'static [u16] as Model>::gen(r); V399(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V400<'a> { pub out: u16, pub b: u8, pub length: &'a [u16] }
impl Model for V400<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<&'static [u16] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.out).val(o); o.push(','); (self.b).val(o); o.push(','); (self.length).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: u16 = <u16 as Model>::gen(r); let b: u8 = <u8 as Model>::gen(r); let length: &'static [u16] = <&'static [u16] as Model>::gen(r); V400 { out, b, length } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.out.borrows(f); self.b.borrows(f); self.length.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct V401<'a> { pub rest: u8, #[speedy(length = ..)] pub tag: &'a [Vz] }
impl Model for V401<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static [Vz] as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.rest).val(o); o.push(','); (self.tag).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let rest: u8 = <u8 as Model>::gen(r); let tag: &'static [Vz] = &[]; V401 { rest, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.rest.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub enum E402<'a> { A(#[speedy(length_type = u8)] &'a [i16]), B { n: u8, #[speedy(length = n / 2)] v: &'a [i16] }, C(u16) }
impl Model for E402<'static> {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(with_lt(<&'static [i16] as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]), (1, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static [i16] as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"div\",\"a\":{\"x\":\"f\",\"i\":1},\"b\":{\"x\":\"n\",\"n\":2}},\"nm\":\"v\"}"), false, false, &[])]), (2, vec![fieldx(<u16 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E402::A(v) => { o.push_str("[1,["); v.val(o); o.push_str("]]"); } E402::B { n, v } => { o.push_str("[2,["); n.val(o); o.push(','); v.val(o); o.push_str("]]"); } E402::C(x) => { o.push_str("[3,["); x.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => E402::A(gen_upto(r, "u8")), 1 => { let n = r.below(24) as u8; let k = (n / 2) as usize + r.chance(1, 14) as usize; E402::B { n, v: GenN::gen_n(r, k) } } _ => E402::C(Model::gen(r)) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E402::A(v) => v.borrows(f), E402::B { v, .. } => v.borrows(f), _ => {} } }
}
#[derive(Clone, Readable, Writable)] pub enum E403<'a> { A(#[speedy(length_type = u8)] &'a [V373]), B { n: u8, #[speedy(length = n / 2)] v: &'a [V374] }, C(u16) }
impl Model for E403<'static> {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(with_lt(<&'static [V373] as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]), (1, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static [V374] as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"div\",\"a\":{\"x\":\"f\",\"i\":1},\"b\":{\"x\":\"n\",\"n\":2}},\"nm\":\"v\"}"), false, false, &[])]), (2, vec![fieldx(<u16 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E403::A(v) => { o.push_str("[1,["); v.val(o); o.push_str("]]"); } E403::B { n, v } => { o.push_str("[2,["); n.val(o); o.push(','); v.val(o); o.push_str("]]"); } E403::C(x) => { o.push_str("[3,["); x.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => E403::A(gen_upto(r, "u8")), 1 => { let n = r.below(24) as u8; let k = (n / 2) as usize + r.chance(1, 14) as usize; E403::B { n, v: GenN::gen_n(r, k) } } _ => E403::C(Model::gen(r)) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E403::A(v) => v.borrows(f), E403::B { v, .. } => v.borrows(f), _ => {} } }
}
#[derive(Clone, Readable, Writable)] pub enum E404<'a> { A(#[speedy(length_type = u8)] &'a [u32]), B { n: u8, #[speedy(length = n / 2)] v: &'a [i8] }, C(u16) }
impl Model for E404<'static> {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(with_lt(<&'static [u32] as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]), (1, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static [i8] as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"div\",\"a\":{\"x\":\"f\",\"i\":1},\"b\":{\"x\":\"n\",\"n\":2}},\"nm\":\"v\"}"), false, false, &[])]), (2, vec![fieldx(<u16 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E404::A(v) => { o.push_str("[1,["); v.val(o); o.push_str("]]"); } E404::B { n, v } => { o.push_str("[2,["); n.val(o); o.push(','); v.val(o); o.push_str("]]"); } E404::C(x) => { o.push_str("[3,["); x.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => E404::A(gen_upto(r, "u8")), 1 => { let n = r.below(24) as u8; let k = (n / 2) as usize + r.chance(1, 14) as usize; E404::B { n, v: GenN::gen_n(r, k) } } _ => E404::C(Model::gen(r)) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E404::A(v) => v.borrows(f), E404::B { v, .. } => v.borrows(f), _ => {} } }
}
#[derive(Clone, Readable, Writable)] pub enum E405<'a> { A(#[speedy(length_type = u8)] &'a [f64]), B { n: u8, #[speedy(length = n / 2)] v: &'a [u16] }, C(u16) }
impl Model for E405<'static> {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(with_lt(<&'static [f64] as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[])]), (1, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static [u16] as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"div\",\"a\":{\"x\":\"f\",\"i\":1},\"b\":{\"x\":\"n\",\"n\":2}},\"nm\":\"v\"}"), false, false, &[])]), (2, vec![fieldx(<u16 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E405::A(v) => { o.push_str("[1,["); v.val(o); o.push_str("]]"); } E405::B { n, v } => { o.push_str("[2,["); n.val(o); o.push(','); v.val(o); o.push_str("]]"); } E405::C(x) => { o.push_str("[3,["); x.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => E405::A(gen_upto(r, "u8")), 1 => { let n = r.below(24) as u8; let k = (n / 2) as usize + r.chance(1, 14) as usize; E405::B { n, v: GenN::gen_n(r, k) } } _ => E405::C(Model::gen(r)) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E405::A(v) => v.borrows(f), E405::B { v, .. } => v.borrows(f), _ => {} } }
}
pub fn register(v: &mut Vec<TypeOps>) {
    reg!(v, "d basic"; S1);
    reg!(v, "d basic"; [S1; 2]);
    reg!(v, "d basic"; S2<'static>);
    reg!(v, "d basic"; [S2<'static>; 2]);
    reg!(v, "d basic"; S3);
    reg!(v, "d basic"; [S3; 2]);
    reg!(v, "d basic"; S4);
    reg!(v, "d basic"; Box<S4>);
    reg!(v, "d basic"; S5);
    reg!(v, "d basic"; [S5; 2]);
    reg!(v, "d basic"; S6);
    reg!(v, "d basic"; Box<S6>);
    reg!(v, "d basic"; S7);
    reg!(v, "d basic"; Box<S7>);
    reg!(v, "d basic"; S8);
    reg!(v, "d basic"; Option<S8>);
    reg!(v, "d basic"; S9<'static>);
    reg!(v, "d basic"; Option<S9<'static>>);
    reg!(v, "d basic"; S10<'static>);
    reg!(v, "d basic"; Vec<S10<'static>>);
    reg!(v, "d basic"; S11);
    reg!(v, "d basic"; BTreeMap<u8, S11>);
    reg!(v, "d basic"; S12);
    reg!(v, "d basic"; Option<S12>);
    reg!(v, "d basic"; S13);
    reg!(v, "d basic"; Box<S13>);
    reg!(v, "d basic"; S14);
    reg!(v, "d basic"; (u8, S14, u16));
    reg!(v, "d basic"; S15);
    reg!(v, "d basic"; (u8, S15, u16));
    reg!(v, "d basic"; S16);
    reg!(v, "d basic"; Box<S16>);
    reg!(v, "d basic"; S17<'static>);
    reg!(v, "d basic"; (u8, S17<'static>, u16));
    reg!(v, "d basic"; S18);
    reg!(v, "d basic"; Vec<S18>);
    reg!(v, "d basic"; S19);
    reg!(v, "d basic"; [S19; 2]);
    reg!(v, "d basic"; S20);
    reg!(v, "d basic"; Box<S20>);
    reg!(v, "d basic"; S21);
    reg!(v, "d basic"; (u8, S21, u16));
    reg!(v, "d basic"; S22);
    reg!(v, "d basic"; [S22; 2]);
    reg!(v, "d basic"; S23);
    reg!(v, "d basic"; BTreeMap<u8, S23>);
    reg!(v, "d basic"; S24);
    reg!(v, "d basic"; Vec<S24>);
    reg!(v, "d basic"; S25);
    reg!(v, "d basic"; Vec<S25>);
    reg!(v, "d basic"; S26);
    reg!(v, "d basic"; BTreeMap<u8, S26>);
    reg!(v, "d basic"; E27);
    reg!(v, "d basic"; Vec<E27>);
    reg!(v, "d basic"; E28);
    reg!(v, "d basic"; Vec<E28>);
    reg!(v, "d basic"; E29);
    reg!(v, "d basic"; Option<E29>);
    reg!(v, "d basic"; E30);
    reg!(v, "d basic"; Option<E30>);
    reg!(v, "d basic"; E31);
    reg!(v, "d basic"; (u8, E31, u16));
    reg!(v, "d basic"; E32);
    reg!(v, "d basic"; Option<E32>);
    reg!(v, "d basic"; E33);
    reg!(v, "d basic"; Vec<E33>);
    reg!(v, "d basic"; E34);
    reg!(v, "d basic"; (u8, E34, u16));
    reg!(v, "d prim"; S35);
    reg!(v, "d prim"; Vec<S35>);
    reg!(v, "d prim"; HashMap<u8, S35>);
    reg_be!(v, "d prim"; [S35; 2]);
    reg!(v, "d prim"; S36);
    reg!(v, "d prim"; Vec<[S36; 2]>);
    reg!(v, "d prim"; Vec<(S36, u8)>);
    reg_be!(v, "d prim"; Vec<S36>);
    reg_le!(v, "d prim"; [S36; 2]);
    reg!(v, "d prim"; S37);
    reg!(v, "d prim"; Cow<'static, [S37]>);
    reg!(v, "d prim"; Box<[S37]>);
    reg!(v, "d prim"; S38);
    reg!(v, "d prim"; Vec<[S38; 2]>);
    reg!(v, "d prim"; Cow<'static, [S38]>);
    reg_le!(v, "d prim"; [S38; 2]);
    reg!(v, "d prim"; S39);
    reg!(v, "d prim"; Box<[S39]>);
    reg!(v, "d prim"; (u8, [S39; 2], Vec<S39>));
    reg_be!(v, "d prim"; [S39; 2]);
    reg!(v, "d prim"; S40);
    reg!(v, "d prim"; Vec<S40>);
    reg!(v, "d prim"; Box<[S40]>);
    reg_le!(v, "d prim"; Vec<S40>);
    reg!(v, "d prim"; S41);
    reg!(v, "d prim"; (u8, [S41; 2], Vec<S41>));
    reg!(v, "d prim"; HashMap<u8, S41>);
    reg_be!(v, "d prim"; Vec<S41>);
    reg_le!(v, "d prim"; [S41; 2]);
    reg!(v, "d prim"; S42);
    reg!(v, "d prim"; [S42; 3]);
    reg!(v, "d prim"; Vec<[S42; 2]>);
    reg_be!(v, "d prim"; [S42; 2]);
    reg!(v, "d prim"; S43);
    reg!(v, "d prim"; Vec<S43>);
    reg!(v, "d prim"; Cow<'static, [S43]>);
    reg!(v, "d prim"; S44);
    reg!(v, "d prim"; (u8, [S44; 2], Vec<S44>));
    reg!(v, "d prim"; Vec<(S44, u8)>);
    reg!(v, "d prim"; S45);
    reg!(v, "d prim"; Vec<[S45; 2]>);
    reg!(v, "d prim"; HashMap<u8, S45>);
    reg_be!(v, "d prim"; [S45; 2]);
    reg!(v, "d prim"; S46);
    reg!(v, "d prim"; HashMap<u8, S46>);
    reg!(v, "d prim"; [S46; 3]);
    reg_be!(v, "d prim"; [S46; 2]);
    reg!(v, "d prim"; S47);
    reg!(v, "d prim"; Vec<[S47; 2]>);
    reg!(v, "d prim"; Cow<'static, [S47]>);
    reg_be!(v, "d prim"; [S47; 2]);
    reg!(v, "d prim"; S48);
    reg!(v, "d prim"; Vec<S48>);
    reg!(v, "d prim"; Vec<(S48, u8)>);
    reg_be!(v, "d prim"; Vec<S48>);
    reg!(v, "d prim"; S49);
    reg!(v, "d prim"; [S49; 3]);
    reg!(v, "d prim"; (u8, [S49; 2], Vec<S49>));
    reg_le!(v, "d prim"; [S49; 2]);
    reg!(v, "d prim"; S50);
    reg!(v, "d prim"; Vec<[S50; 2]>);
    reg!(v, "d prim"; Vec<S50>);
    reg!(v, "d prim"; S51);
    reg!(v, "d prim"; [S51; 3]);
    reg!(v, "d prim"; Vec<[S51; 2]>);
    reg!(v, "d prim"; S52);
    reg!(v, "d prim"; [S52; 3]);
    reg!(v, "d prim"; (u8, [S52; 2], Vec<S52>));
    reg_le!(v, "d prim"; Vec<S52>);
    reg!(v, "d prim"; S53);
    reg!(v, "d prim"; (u8, [S53; 2], Vec<S53>));
    reg!(v, "d prim"; Cow<'static, [S53]>);
    reg_le!(v, "d prim dref"; &'static [S53]);
    reg_le!(v, "d prim dref"; (u8, &'static [S53]));
    reg!(v, "d prim"; S54);
    reg!(v, "d prim"; HashMap<u8, S54>);
    reg!(v, "d prim"; (u8, [S54; 2], Vec<S54>));
    reg_le!(v, "d prim dref"; &'static [S54]);
    reg_le!(v, "d prim dref"; (u8, &'static [S54]));
    reg!(v, "d prim"; S55);
    reg!(v, "d prim"; (u8, [S55; 2], Vec<S55>));
    reg!(v, "d prim"; [S55; 3]);
    reg_le!(v, "d prim dref"; &'static [S55]);
    reg_le!(v, "d prim dref"; (u8, &'static [S55]));
    reg!(v, "d prim"; S56);
    reg!(v, "d prim"; HashMap<u8, S56>);
    reg!(v, "d prim"; Vec<S56>);
    reg_le!(v, "d prim dref"; &'static [S56]);
    reg_le!(v, "d prim dref"; (u8, &'static [S56]));
    reg_le!(v, "d prim"; Vec<S56>);
    reg_le!(v, "d prim"; [S56; 2]);
    reg!(v, "d prim"; S57);
    reg!(v, "d prim"; [S57; 3]);
    reg!(v, "d prim"; Vec<S57>);
    reg_le!(v, "d prim dref"; &'static [S57]);
    reg_le!(v, "d prim dref"; (u8, &'static [S57]));
    reg_be!(v, "d prim"; [S57; 2]);
    reg!(v, "d prim"; S58);
    reg!(v, "d prim"; Vec<[S58; 2]>);
    reg!(v, "d prim"; (u8, [S58; 2], Vec<S58>));
    reg_le!(v, "d prim dref"; &'static [S58]);
    reg_le!(v, "d prim dref"; (u8, &'static [S58]));
    reg!(v, "d prim"; S59);
    reg!(v, "d prim"; Vec<(S59, u8)>);
    reg!(v, "d prim"; Box<[S59]>);
    reg_be!(v, "d prim"; [S59; 2]);
    reg!(v, "d prim"; S60);
    reg!(v, "d prim"; Cow<'static, [S60]>);
    reg!(v, "d prim"; Vec<S60>);
    reg_le!(v, "d prim"; [S60; 2]);
    reg!(v, "d prim"; S61);
    reg!(v, "d prim"; Cow<'static, [S61]>);
    reg!(v, "d prim"; Box<[S61]>);
    reg_le!(v, "d prim dref mref"; &'static [S61]);
    reg!(v, "d prim"; S62);
    reg!(v, "d prim"; Vec<S62>);
    reg!(v, "d prim"; Vec<[S62; 2]>);
    reg!(v, "d prim"; S63);
    reg!(v, "d prim"; (u8, [S63; 2], Vec<S63>));
    reg!(v, "d prim"; Cow<'static, [S63]>);
    reg_le!(v, "d prim dref mref"; &'static [S63]);
    reg!(v, "d prim"; S64);
    reg!(v, "d prim"; Cow<'static, [S64]>);
    reg!(v, "d prim"; (u8, [S64; 2], Vec<S64>));
    reg!(v, "d prim"; S65);
    reg!(v, "d prim"; Box<[S65]>);
    reg!(v, "d prim"; (u8, [S65; 2], Vec<S65>));
    reg!(v, "d prim"; S66);
    reg!(v, "d prim"; (u8, [S66; 2], Vec<S66>));
    reg!(v, "d prim"; HashMap<u8, S66>);
    reg!(v, "d prim"; S67);
    reg!(v, "d prim"; Vec<(S67, u8)>);
    reg!(v, "d prim"; Vec<[S67; 2]>);
    reg!(v, "d prim"; S68);
    reg!(v, "d prim"; Vec<[S68; 2]>);
    reg!(v, "d prim"; HashMap<u8, S68>);
    reg_le!(v, "d prim"; Vec<S68>);
    reg!(v, "d prim"; S69);
    reg!(v, "d prim"; [S69; 3]);
    reg!(v, "d prim"; Vec<(S69, u8)>);
    reg!(v, "d prim"; S70);
    reg!(v, "d prim"; Box<[S70]>);
    reg!(v, "d prim"; Cow<'static, [S70]>);
    reg_be!(v, "d prim"; Vec<S70>);
    reg!(v, "d prim"; S71);
    reg!(v, "d prim"; Cow<'static, [S71]>);
    reg!(v, "d prim"; Box<[S71]>);
    reg_le!(v, "d prim"; [S71; 2]);
    reg!(v, "d prim"; S72);
    reg!(v, "d prim"; Vec<S72>);
    reg!(v, "d prim"; [S72; 3]);
    reg_le!(v, "d prim"; Vec<S72>);
    reg!(v, "d prim"; S73);
    reg!(v, "d prim"; Cow<'static, [S73]>);
    reg!(v, "d prim"; HashMap<u8, S73>);
    reg!(v, "d prim"; S74);
    reg!(v, "d prim"; Cow<'static, [S74]>);
    reg!(v, "d prim"; Vec<(S74, u8)>);
    reg_be!(v, "d prim"; Vec<S74>);
    reg!(v, "d prim"; S75);
    reg!(v, "d prim"; Box<[S75]>);
    reg!(v, "d prim"; HashMap<u8, S75>);
    reg_le!(v, "d prim"; [S75; 2]);
    reg!(v, "d prim"; S76);
    reg!(v, "d prim"; Cow<'static, [S76]>);
    reg!(v, "d prim"; HashMap<u8, S76>);
    reg_le!(v, "d prim dref"; &'static [S76]);
    reg_le!(v, "d prim dref"; (u8, &'static [S76]));
    reg_le!(v, "d prim"; [S76; 2]);
    reg!(v, "d prim"; S77);
    reg!(v, "d prim"; (u8, [S77; 2], Vec<S77>));
    reg!(v, "d prim"; Vec<(S77, u8)>);
    reg_be!(v, "d prim"; Vec<S77>);
    reg_le!(v, "d prim"; [S77; 2]);
    reg!(v, "d prim"; S78);
    reg!(v, "d prim"; Vec<S78>);
    reg!(v, "d prim"; HashMap<u8, S78>);
    reg_le!(v, "d prim"; Vec<S78>);
    reg!(v, "d prim"; Q79);
    reg!(v, "d prim"; [Q79; 3]);
    reg!(v, "d prim"; Q80);
    reg!(v, "d prim"; Vec<Q80>);
    reg!(v, "d prim"; Q81);
    reg!(v, "d prim"; [Q81; 3]);
    reg!(v, "d prim"; Q82);
    reg!(v, "d prim"; Vec<Q82>);
    reg!(v, "d prim"; Q83);
    reg!(v, "d prim"; Box<[Q83]>);
    reg!(v, "d prim"; Q84);
    reg!(v, "d prim"; Box<[Q84]>);
    reg!(v, "d prim"; Q85);
    reg!(v, "d prim"; Vec<Q85>);
    reg!(v, "d prim"; Q86);
    reg!(v, "d prim"; [Q86; 3]);
    reg!(v, "d prim"; Q87);
    reg!(v, "d prim"; Vec<Q87>);
    reg!(v, "d prim"; Q88);
    reg!(v, "d prim"; Cow<'static, [Q88]>);
    reg!(v, "d prim"; Q89);
    reg!(v, "d prim"; Cow<'static, [Q89]>);
    reg!(v, "d prim"; Q90);
    reg!(v, "d prim"; Vec<Q90>);
    reg!(v, "d prim"; Q91);
    reg!(v, "d prim"; [Q91; 3]);
    reg!(v, "d prim"; Q92);
    reg!(v, "d prim"; Vec<Q92>);
    reg!(v, "d prim"; Q93);
    reg!(v, "d prim"; Cow<'static, [Q93]>);
    reg!(v, "d prim"; Q94);
    reg!(v, "d prim"; [Q94; 3]);
    reg!(v, "d prim"; S95);
    reg!(v, "d prim"; Vec<S95>);
    reg!(v, "d prim"; [S95; 2]);
    reg!(v, "d prim"; Cow<'static, [S95]>);
    reg_le!(v, "d prim dref mref"; &'static [S95]);
    reg!(v, "d len dref"; S96<'static>);
    reg!(v, "d len"; S97<'static>);
    reg!(v, "d len dref"; S98<'static>);
    reg!(v, "d len"; S99);
    reg!(v, "d len open"; S100<'static>);
    reg!(v, "d len"; S101<'static>);
    reg!(v, "d len dref"; S102<'static>);
    reg!(v, "d len"; S103);
    reg!(v, "d len open"; S104);
    reg!(v, "d len open dref"; S105<'static>);
    reg!(v, "d len dref"; S106<'static>);
    reg!(v, "d len open"; S107<'static>);
    reg!(v, "d len open dref"; S108<'static>);
    reg!(v, "d len open"; S109);
    reg!(v, "d len"; S110);
    reg!(v, "d len open"; S111<'static>);
    reg!(v, "d len"; S112<'static>);
    reg!(v, "d len"; S113);
    reg!(v, "d len"; S114);
    reg!(v, "d len"; S115<'static>);
    reg!(v, "d len open dref"; S116<'static>);
    reg!(v, "d len"; S117<'static>);
    reg!(v, "d len"; S118);
    reg!(v, "d len"; S119<'static>);
    reg!(v, "d len dref"; S120<'static>);
    reg!(v, "d len"; S121);
    reg!(v, "d len"; S122<'static>);
    reg!(v, "d len open dref"; S123<'static>);
    reg!(v, "d len"; S124);
    reg!(v, "d len"; S125<'static>);
    reg!(v, "d len open"; S126<'static>);
    reg!(v, "d len"; S127<'static>);
    reg!(v, "d len open"; S128<'static>);
    reg!(v, "d len"; S129);
    reg!(v, "d len"; S130<'static>);
    reg!(v, "d len open dref"; S131<'static>);
    reg!(v, "d len open"; S132<'static>);
    reg!(v, "d len"; S133<'static>);
    reg!(v, "d len dref"; S134<'static>);
    reg!(v, "d len open dref"; S135<'static>);
    reg!(v, "d len"; S136);
    reg!(v, "d len"; S137<'static>);
    reg!(v, "d len"; S138);
    reg!(v, "d len"; S139);
    reg!(v, "d len"; L140);
    reg!(v, "d len"; L141);
    reg!(v, "d len"; L142);
    reg!(v, "d len"; L143);
    reg!(v, "d len"; L144<'static>);
    reg!(v, "d len"; L145);
    reg!(v, "d len dref"; L146<'static>);
    reg!(v, "d len"; L147);
    reg!(v, "d len"; L148);
    reg!(v, "d len"; L149);
    reg!(v, "d len"; L150);
    reg!(v, "d len"; L151);
    reg!(v, "d len"; L152);
    reg!(v, "d len"; L153);
    reg!(v, "d len"; L154);
    reg!(v, "d len"; L155);
    reg!(v, "d len"; L156);
    reg!(v, "d len"; L157);
    reg!(v, "d len"; L158);
    reg!(v, "d len"; L159);
    reg!(v, "d len"; L160<'static>);
    reg!(v, "d len dref"; L161<'static>);
    reg!(v, "d len"; L162);
    reg!(v, "d len"; L163);
    reg!(v, "d len"; L164);
    reg!(v, "d len dref"; L165<'static>);
    reg!(v, "d len"; L166);
    reg!(v, "d len"; L167);
    reg!(v, "d len"; L168);
    reg!(v, "d len"; L169);
    reg!(v, "d len"; L170);
    reg!(v, "d len"; L171);
    reg!(v, "d len dref"; L172<'static>);
    reg!(v, "d len"; L173);
    reg!(v, "d enum"; E174);
    reg!(v, "d enum"; E175);
    reg!(v, "d enum"; E176);
    reg!(v, "d enum"; E177);
    reg!(v, "d enum"; E178);
    reg!(v, "d enum"; E179);
    reg!(v, "d enum"; E180<'static>);
    reg!(v, "d enum"; E181);
    reg!(v, "d enum"; E182);
    reg!(v, "d enum"; E183);
    reg!(v, "d enum"; E184);
    reg!(v, "d enum"; E185);
    reg!(v, "d enum"; E186<'static>);
    reg!(v, "d enum"; E187<'static>);
    reg!(v, "d enum"; E188);
    reg!(v, "d enum"; E189);
    reg!(v, "d enum"; E190<'static>);
    reg!(v, "d enum"; E191);
    reg!(v, "d enum"; E192);
    reg!(v, "d enum"; E193);
    reg!(v, "d enum"; E194);
    reg!(v, "d enum"; E195);
    reg!(v, "d enum"; E196);
    reg!(v, "d enum"; E197);
    reg!(v, "d enum"; E198);
    reg!(v, "d enum"; E199);
    reg!(v, "d enum"; E200);
    reg!(v, "d enum"; E201);
    reg!(v, "d enum open dref"; E202<'static>);
    reg!(v, "d enum open"; E203);
    reg!(v, "d enum open"; E204);
    reg!(v, "d enum open"; E205);
    reg!(v, "d enum open"; E206);
    reg!(v, "d enum open"; E207<'static>);
    reg!(v, "d attr"; S208);
    reg!(v, "d attr open"; S209<'static>);
    reg!(v, "d attr open"; S210);
    reg!(v, "d attr"; S211);
    reg!(v, "d attr"; S212);
    reg!(v, "d attr"; S213);
    reg!(v, "d attr open"; S214);
    reg!(v, "d attr"; S215<'static>);
    reg!(v, "d attr open"; S216<'static>);
    reg!(v, "d attr open"; S217);
    reg!(v, "d attr"; S218);
    reg!(v, "d attr"; S219);
    reg!(v, "d attr open"; S220);
    reg!(v, "d attr open"; S221);
    reg!(v, "d attr"; S222);
    reg!(v, "d attr open"; S223);
    reg!(v, "d attr open"; S224);
    reg!(v, "d attr open"; S225<'static>);
    reg!(v, "d attr open"; S226);
    reg!(v, "d attr"; S227);
    reg!(v, "d attr open"; S228<'static>);
    reg!(v, "d attr open"; S229);
    reg!(v, "d attr open"; S230);
    reg!(v, "d attr open"; S231<'static>);
    reg!(v, "d attr open"; S232);
    reg!(v, "d attr"; S233);
    reg!(v, "d attr open"; S234<'static>);
    reg!(v, "d attr open"; S235<'static>);
    reg!(v, "d attr open"; S236);
    reg!(v, "d attr"; S237);
    reg!(v, "d attr"; S238<'static>);
    reg!(v, "d attr"; S239);
    reg!(v, "d attr"; S240);
    reg!(v, "d attr"; S241);
    reg!(v, "d attr open"; S242);
    reg!(v, "d attr"; S243);
    reg!(v, "d attr open"; S244);
    reg!(v, "d attr open"; S245);
    reg!(v, "d attr"; S246);
    reg!(v, "d attr open"; S247);
    reg!(v, "d attr open"; S248<'static>);
    reg!(v, "d attr open"; S249);
    reg!(v, "d attr"; S250);
    reg!(v, "d attr"; S251<'static>);
    reg!(v, "d attr"; S252<'static>);
    reg!(v, "d attr dref"; S253<'static>);
    reg!(v, "d attr open"; S254<'static>);
    reg!(v, "d attr"; S255);
    reg!(v, "d attr"; E256);
    reg!(v, "d attr open"; E257);
    reg!(v, "d attr open"; E258<'static>);
    reg!(v, "d attr open"; E259);
    reg!(v, "d attr open"; E260);
    reg!(v, "d attr open"; E261);
    reg!(v, "d attr"; K262);
    reg!(v, "d attr"; Cow<'static, [K262]>);
    reg!(v, "d attr"; [K262; 3]);
    reg!(v, "d attr"; K263);
    reg!(v, "d attr"; (u8, [K263; 2]));
    reg!(v, "d attr"; Cow<'static, [K263]>);
    reg!(v, "d attr open"; K264);
    reg!(v, "d attr"; K265);
    reg!(v, "d attr"; Cow<'static, [K265]>);
    reg!(v, "d attr"; Box<[K265]>);
    reg!(v, "d attr"; K266);
    reg!(v, "d attr"; (u8, [K266; 2]));
    reg!(v, "d attr"; [K266; 3]);
    reg!(v, "d attr"; K267);
    reg!(v, "d attr"; Cow<'static, [K267]>);
    reg!(v, "d attr"; Box<[K267]>);
    reg!(v, "d attr open"; K268);
    reg!(v, "d attr"; K269);
    reg!(v, "d attr"; Cow<'static, [K269]>);
    reg!(v, "d attr"; Vec<K269>);
    reg!(v, "d attr"; K270);
    reg!(v, "d attr"; Box<[K270]>);
    reg!(v, "d attr"; Cow<'static, [K270]>);
    reg!(v, "d attr"; K271);
    reg!(v, "d attr"; Box<[K271]>);
    reg!(v, "d attr"; (u8, [K271; 2]));
    reg!(v, "d attr open"; K272);
    reg!(v, "d attr"; K273);
    reg!(v, "d attr"; Cow<'static, [K273]>);
    reg!(v, "d attr"; Box<[K273]>);
    reg!(v, "d attr"; K274);
    reg!(v, "d attr"; [K274; 3]);
    reg!(v, "d attr"; Vec<K274>);
    reg!(v, "d attr"; K275);
    reg!(v, "d attr"; Box<[K275]>);
    reg!(v, "d attr"; [K275; 3]);
    reg!(v, "d attr"; K276);
    reg!(v, "d attr"; Cow<'static, [K276]>);
    reg!(v, "d attr"; Vec<K276>);
    reg!(v, "d attr"; K277);
    reg!(v, "d attr"; Vec<K277>);
    reg!(v, "d attr"; Cow<'static, [K277]>);
    reg!(v, "d attr open"; K278);
    reg!(v, "d attr"; K279);
    reg!(v, "d attr"; Cow<'static, [K279]>);
    reg!(v, "d attr"; Vec<K279>);
    reg!(v, "d attr"; K280);
    reg!(v, "d attr"; Cow<'static, [K280]>);
    reg!(v, "d attr"; (u8, [K280; 2]));
    reg!(v, "d attr open"; K281);
    reg!(v, "d attr"; P282);
    reg!(v, "d attr"; P283);
    reg!(v, "d attr"; P284);
    reg!(v, "d attr"; P285);
    reg!(v, "d attr"; P286);
    reg!(v, "d attr"; P287);
    reg!(v, "d attr"; P288);
    reg!(v, "d attr"; P289);
    reg!(v, "d attr"; P290);
    reg!(v, "d attr"; P291);
    reg!(v, "d attr"; P292);
    reg!(v, "d attr"; P293);
    reg!(v, "d attr open"; D294);
    reg!(v, "d attr open"; D295);
    reg!(v, "d attr open"; D296);
    reg!(v, "d attr open"; D297);
    reg!(v, "d attr open"; D298);
    reg!(v, "d attr open"; D299);
    reg!(v, "d attr open"; D300);
    reg!(v, "d attr open"; D301);
    reg!(v, "d attr open"; D302);
    reg!(v, "d attr open"; D303);
    reg!(v, "d attr open"; D304);
    reg!(v, "d attr open"; D305);
    reg!(v, "d attr open"; D306);
    reg!(v, "d attr open"; D307);
    reg!(v, "d attr open"; D308<'static>);
    reg!(v, "d attr open"; D309<'static>);
    reg!(v, "d attr open"; D310<'static>);
    reg!(v, "d attr open"; D311);
    reg!(v, "d attr open"; D312);
    reg!(v, "d varint"; S313<'static>);
    reg!(v, "d varint"; Option<S313<'static>>);
    reg!(v, "d varint"; S314);
    reg!(v, "d varint"; [S314; 3]);
    reg!(v, "d varint"; S315<'static>);
    reg!(v, "d varint"; [S315<'static>; 3]);
    reg!(v, "d varint"; S316);
    reg!(v, "d varint"; Option<S316>);
    reg!(v, "d varint"; S317);
    reg!(v, "d varint"; [S317; 3]);
    reg!(v, "d varint"; S318);
    reg!(v, "d varint"; [S318; 3]);
    reg!(v, "d varint"; X319);
    reg!(v, "d varint"; X320);
    reg!(v, "d varint"; X321);
    reg!(v, "d varint"; X322);
    reg!(v, "d varint"; X323);
    reg!(v, "d varint"; Vec<X323>);
    reg!(v, "d varint"; [X323; 2]);
    reg!(v, "d varint"; X324);
    reg!(v, "d varint"; Vec<X324>);
    reg!(v, "d varint"; [X324; 2]);
    reg!(v, "d varint"; E325);
    reg!(v, "d varint"; E326);
    reg!(v, "d enum peek"; E327);
    reg!(v, "d enum peek"; Box<E327>);
    reg!(v, "d enum peek"; (u8, E327, u16));
    reg!(v, "d enum peek"; E328);
    reg!(v, "d enum peek"; [E328; 3]);
    reg!(v, "d enum peek"; Vec<E328>);
    reg!(v, "d enum peek"; E329);
    reg!(v, "d enum peek"; E330);
    reg!(v, "d enum peek"; Vec<E330>);
    reg!(v, "d enum peek"; [E330; 3]);
    reg!(v, "d enum peek"; E331<'static>);
    reg!(v, "d enum peek"; E332);
    reg!(v, "d enum peek"; Box<E332>);
    reg!(v, "d enum peek"; (u8, E332, u16));
    reg!(v, "d enum peek"; E333);
    reg!(v, "d enum peek"; E334);
    reg!(v, "d enum peek"; BTreeMap<u8, E334>);
    reg!(v, "d enum peek"; [E334; 3]);
    reg!(v, "d enum peek"; E335);
    reg!(v, "d enum peek"; Option<E335>);
    reg!(v, "d enum peek"; BTreeMap<u8, E335>);
    reg!(v, "d enum peek"; E336<'static>);
    reg!(v, "d enum peek"; E337);
    reg!(v, "d enum peek"; E338);
    reg!(v, "d generic"; G339<Vec<String>>);
    reg!(v, "d generic"; G339<u8>);
    reg!(v, "d generic"; BTreeMap<u8, G340<bool>>);
    reg!(v, "d generic"; G340<Vec<u16>>);
    reg!(v, "d generic"; [G340<(u8, u32)>; 2]);
    reg!(v, "d generic"; BTreeMap<u8, G341<Option<u8>>>);
    reg!(v, "d generic"; Cow<'static, [G341<u32>]>);
    reg!(v, "d generic"; Cow<'static, [G342<Option<u8>, Cow<'static, str>>]>);
    reg!(v, "d generic"; Cow<'static, [G342<f32, u64>]>);
    reg!(v, "d generic"; Box<[G343<u16>]>);
    reg!(v, "d generic"; Option<G343<Vec<String>>>);
    reg!(v, "d generic"; G344<()>);
    reg!(v, "d generic"; [G344<Option<u8>>; 2]);
    reg!(v, "d generic"; G345<[u8; 3]>);
    reg!(v, "d generic"; Option<G345<Option<u8>>>);
    reg!(v, "d generic"; G345<u16>);
    reg!(v, "d generic"; G346<char>);
    reg!(v, "d generic"; G346<Cow<'static, str>>);
    reg!(v, "d generic"; G346<u8>);
    reg!(v, "d generic"; G347<[u8; 3], bool>);
    reg!(v, "d generic"; BTreeMap<u8, G347<bool, u16>>);
    reg!(v, "d generic"; G348<f32>);
    reg!(v, "d generic"; Cow<'static, [G348<Cow<'static, str>>]>);
    reg!(v, "d generic"; Box<[G349<()>]>);
    reg!(v, "d generic"; G349<u32>);
    reg!(v, "d generic"; G349<[u8; 3]>);
    reg!(v, "d generic"; [G350<Vec<String>, u32>; 2]);
    reg!(v, "d generic"; Cow<'static, [G350<char, u32>]>);
    reg!(v, "d generic"; G351<()>);
    reg!(v, "d generic"; [G351<u8>; 2]);
    reg!(v, "d generic"; H352<char>);
    reg!(v, "d generic"; [H352<char>; 2]);
    reg!(v, "d generic"; BTreeMap<u8, H353<u8>>);
    reg!(v, "d generic"; H353<u32>);
    reg!(v, "d generic"; H353<String>);
    reg!(v, "d generic"; Box<[H354<u8>]>);
    reg!(v, "d generic"; Cow<'static, [H354<Option<u8>>]>);
    reg!(v, "d generic"; H354<Cow<'static, str>>);
    reg!(v, "d generic"; H355<[u8; 3], Vec<String>>);
    reg!(v, "d generic"; [H355<u32, u16>; 2]);
    reg!(v, "d generic"; H356<Cow<'static, str>>);
    reg!(v, "d generic"; H356<u8>);
    reg!(v, "d generic prim"; Box<[G357<bool>]>);
    reg!(v, "d generic prim"; [G357<u32>; 2]);
    reg!(v, "d generic prim"; G358<i16>);
    reg!(v, "d generic prim"; G358<u16>);
    reg!(v, "d generic prim"; Box<[G359<u16>]>);
    reg!(v, "d generic prim"; Box<[G359<char>]>);
    reg!(v, "d generic prim"; Box<[G359<[u16; 2]>]>);
    reg!(v, "d generic prim"; Box<[G359<f64>]>);
    reg!(v, "d generic prim"; Vec<G359<u64>>);
    reg!(v, "d generic prim"; Vec<G360<[u16; 2]>>);
    reg!(v, "d generic prim"; BTreeMap<u8, G360<[u16; 2]>>);
    reg!(v, "d generic prim"; G360<f32>);
    reg!(v, "d generic prim"; G361<[u16; 2]>);
    reg!(v, "d generic prim"; Cow<'static, [G361<[u16; 2]>]>);
    reg!(v, "d rec"; R362);
    reg!(v, "d rec"; R363);
    reg!(v, "d rec"; (u8, R363));
    reg!(v, "d rec"; R364);
    reg!(v, "d rec"; (u8, R364));
    reg!(v, "d rec"; R366);
    reg!(v, "d rec"; R365);
    reg!(v, "d rec"; R367);
    reg!(v, "d rec"; R368);
    reg!(v, "d rec"; R370);
    reg!(v, "d rec"; R369);
    reg!(v, "d rec"; (u8, R369));
    reg!(v, "d view"; V371);
    reg!(v, "d view"; V372);
    reg!(v, "d view"; V373);
    reg!(v, "d view"; V374);
    reg!(v, "d view dref"; V375<'static>);
    reg!(v, "d view dref"; V376<'static>);
    reg!(v, "d view dref"; V377<'static>);
    reg!(v, "d view dref"; V378<'static>);
    reg!(v, "d view dref"; V379<'static>);
    reg!(v, "d view dref"; V380<'static>);
    reg!(v, "d view dref"; V381<'static>);
    reg!(v, "d view open dref"; V382<'static>);
    reg!(v, "d view open dref"; V383<'static>);
    reg!(v, "d view dref"; V384<'static>);
    reg!(v, "d view dref"; V385<'static>);
    reg!(v, "d view dref"; V386<'static>);
    reg!(v, "d view dref"; V387<'static>);
    reg!(v, "d view open dref"; V388<'static>);
    reg!(v, "d view open dref"; V389<'static>);
    reg!(v, "d view dref"; V390<'static>);
    reg!(v, "d view dref"; V391<'static>);
    reg!(v, "d view dref"; V392<'static>);
    reg!(v, "d view dref"; V393<'static>);
    reg!(v, "d view dref"; V394<'static>);
    reg!(v, "d view dref"; V395<'static>);
    reg!(v, "d view open dref"; V396<'static>);
    reg!(v, "d view dref"; V397<'static>);
    reg!(v, "d view open dref"; V398<'static>);
    reg!(v, "d view dref"; V399<'static>);
    reg!(v, "d view dref"; V400<'static>);
    reg!(v, "d view open dref"; V401<'static>);
    reg!(v, "d view dref"; E402<'static>);
    reg!(v, "d view dref"; E403<'static>);
    reg!(v, "d view dref"; E404<'static>);
    reg!(v, "d view dref"; E405<'static>);
}
