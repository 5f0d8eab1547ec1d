// Made by tools/gen_derive.py. Derived types and their schemas.
use harness::life::*;
use harness::model::*;
use harness::ops::TypeOps;
use harness::util::*;
use harness::{reg, reg_be, reg_le};
use speedy::{Endianness, Readable, Writable};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::net::*;
use std::num::*;
use std::time::{Duration, SystemTime};
use uuid::Uuid;

#[derive(Clone, Readable, Writable)] pub struct S1 { pub id: Vec<HashMap<L, L>> }
impl Model for S1 {
    fn schema() -> String { struct_schema(&[fieldx(<Vec<HashMap<L, L>> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.id.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let id: Vec<HashMap<L, L>> = <Vec<HashMap<L, L>> as Model>::gen(r); S1 { id } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.id.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S2(pub [Vec<L>; 1]);
impl Model for S2 {
    fn schema() -> String { struct_schema(&[fieldx(<[Vec<L>; 1] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: [Vec<L>; 1] = <[Vec<L>; 1] as Model>::gen(r); S2(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S3 { pub id: Vec<Option<L>>, pub kind: Vec<L> }
impl Model for S3 {
    fn schema() -> String { struct_schema(&[fieldx(<Vec<Option<L>> as Model>::schema(), false, false, &[]), fieldx(<Vec<L> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.id.val(o); o.push(','); self.kind.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let id: Vec<Option<L>> = <Vec<Option<L>> as Model>::gen(r); let kind: Vec<L> = <Vec<L> as Model>::gen(r); S3 { id, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.id.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S4(pub L, pub L0, pub SystemTime, pub LB, pub S1);
impl Model for S4 {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<L0 as Model>::schema(), false, false, &[]), fieldx(<SystemTime as Model>::schema(), false, false, &[]), fieldx(<LB as Model>::schema(), false, false, &[]), fieldx(<S1 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: L = <L as Model>::gen(r); let t1: L0 = <L0 as Model>::gen(r); let t2: SystemTime = <SystemTime as Model>::gen(r); let t3: LB = <LB as Model>::gen(r); let t4: S1 = <S1 as Model>::gen(r); S4(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct S5<'a>(pub String, pub Cow<'a, BTreeMap<u8, u32>>, pub BTreeSet<LB>, pub NonZeroU8, pub L0);
impl Model for S5<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, BTreeMap<u8, u32>> as Model>::schema(), false, false, &[]), fieldx(<BTreeSet<LB> as Model>::schema(), false, false, &[]), fieldx(<NonZeroU8 as Model>::schema(), false, false, &[]), fieldx(<L0 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: String = <String as Model>::gen(r); let t1: Cow<'static, BTreeMap<u8, u32>> = <Cow<'static, BTreeMap<u8, u32>> as Model>::gen(r); let t2: BTreeSet<LB> = <BTreeSet<LB> as Model>::gen(r); let t3: NonZeroU8 = <NonZeroU8 as Model>::gen(r); let t4: L0 = <L0 as Model>::gen(r); S5(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S6 { pub len: L0, pub data: S4, pub size: L, pub r#type: L, pub id: L0 }
impl Model for S6 {
    fn schema() -> String { struct_schema(&[fieldx(<L0 as Model>::schema(), false, false, &[]), fieldx(<S4 as Model>::schema(), false, false, &[]), fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<L0 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.len.val(o); o.push(','); self.data.val(o); o.push(','); self.size.val(o); o.push(','); self.r#type.val(o); o.push(','); self.id.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: L0 = <L0 as Model>::gen(r); let data: S4 = <S4 as Model>::gen(r); let size: L = <L as Model>::gen(r); let r#type: L = <L as Model>::gen(r); let id: L0 = <L0 as Model>::gen(r); S6 { len, data, size, r#type, id } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); self.data.borrows(f); self.size.borrows(f); self.r#type.borrows(f); self.id.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct S7(pub HashSet<LB>);
impl Model for S7 {
    fn schema() -> String { struct_schema(&[fieldx(<HashSet<LB> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: HashSet<LB> = <HashSet<LB> as Model>::gen(r); S7(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S8(pub L, pub [L; 2], pub LB, pub L0);
impl Model for S8 {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<[L; 2] as Model>::schema(), false, false, &[]), fieldx(<LB as Model>::schema(), false, false, &[]), fieldx(<L0 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: L = <L as Model>::gen(r); let t1: [L; 2] = <[L; 2] as Model>::gen(r); let t2: LB = <LB as Model>::gen(r); let t3: L0 = <L0 as Model>::gen(r); S8(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S9 { pub name: Box<String>, pub reader: Vec<NonZeroU8>, pub len: Vec<L>, pub value: L, pub kind: L0 }
impl Model for S9 {
    fn schema() -> String { struct_schema(&[fieldx(<Box<String> as Model>::schema(), false, false, &[]), fieldx(<Vec<NonZeroU8> as Model>::schema(), false, false, &[]), fieldx(<Vec<L> as Model>::schema(), false, false, &[]), fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<L0 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.name.val(o); o.push(','); self.reader.val(o); o.push(','); self.len.val(o); o.push(','); self.value.val(o); o.push(','); self.kind.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: Box<String> = <Box<String> as Model>::gen(r); let reader: Vec<NonZeroU8> = <Vec<NonZeroU8> as Model>::gen(r); let len: Vec<L> = <Vec<L> as Model>::gen(r); let value: L = <L as Model>::gen(r); let kind: L0 = <L0 as Model>::gen(r); S9 { name, reader, len, value, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); self.reader.borrows(f); self.len.borrows(f); self.value.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct S10 { pub r#type: L, pub slice: (L0, String,) }
impl Model for S10 {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<(L0, String,) as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.r#type.val(o); o.push(','); self.slice.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let r#type: L = <L as Model>::gen(r); let slice: (L0, String,) = <(L0, String,) as Model>::gen(r); S10 { r#type, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.r#type.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S11(pub String, pub String);
impl Model for S11 {
    fn schema() -> String { struct_schema(&[fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: String = <String as Model>::gen(r); let t1: String = <String as Model>::gen(r); S11(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(C)] pub struct S12 { pub length: L }
impl Model for S12 {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.length.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: L = <L as Model>::gen(r); S12 { length } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S13 { pub t1: Option<String> }
impl Model for S13 {
    fn schema() -> String { struct_schema(&[fieldx(<Option<String> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.t1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t1: Option<String> = <Option<String> as Model>::gen(r); S13 { t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct S14 { pub value: HashMap<LB, [L; 0]>, pub a: S11 }
impl Model for S14 {
    fn schema() -> String { struct_schema(&[fieldx(<HashMap<LB, [L; 0]> as Model>::schema(), false, false, &[]), fieldx(<S11 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.value.val(o); o.push(','); self.a.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let value: HashMap<LB, [L; 0]> = <HashMap<LB, [L; 0]> as Model>::gen(r); let a: S11 = <S11 as Model>::gen(r); S14 { value, a } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.value.borrows(f); self.a.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S15 { pub a: Vec<(L, LB,)>, pub tag: (String, HashMap<L, LB>, (L, L, LB,),) }
impl Model for S15 {
    fn schema() -> String { struct_schema(&[fieldx(<Vec<(L, LB,)> as Model>::schema(), false, false, &[]), fieldx(<(String, HashMap<L, LB>, (L, L, LB,),) as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.a.val(o); o.push(','); self.tag.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let a: Vec<(L, LB,)> = <Vec<(L, LB,)> as Model>::gen(r); let tag: (String, HashMap<L, LB>, (L, L, LB,),) = <(String, HashMap<L, LB>, (L, L, LB,),) as Model>::gen(r); S15 { a, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.a.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S16 { pub b: Vec<Box<L>>, pub t0: String, pub kind: String }
impl Model for S16 {
    fn schema() -> String { struct_schema(&[fieldx(<Vec<Box<L>> as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.b.val(o); o.push(','); self.t0.val(o); o.push(','); self.kind.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let b: Vec<Box<L>> = <Vec<Box<L>> as Model>::gen(r); let t0: String = <String as Model>::gen(r); let kind: String = <String as Model>::gen(r); S16 { b, t0, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.b.borrows(f); self.t0.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S17<'a>(pub L, pub String, pub L, pub [L; 3], pub Cow<'a, [LB]>);
impl Model for S17<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<[L; 3] as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, [LB]> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: L = <L as Model>::gen(r); let t1: String = <String as Model>::gen(r); let t2: L = <L as Model>::gen(r); let t3: [L; 3] = <[L; 3] as Model>::gen(r); let t4: Cow<'static, [LB]> = <Cow<'static, [LB]> as Model>::gen(r); S17(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct S18(pub L0, pub Vec<String>, pub L);
impl Model for S18 {
    fn schema() -> String { struct_schema(&[fieldx(<L0 as Model>::schema(), false, false, &[]), fieldx(<Vec<String> as Model>::schema(), false, false, &[]), fieldx(<L as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: L0 = <L0 as Model>::gen(r); let t1: Vec<String> = <Vec<String> as Model>::gen(r); let t2: L = <L as Model>::gen(r); S18(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S19 { pub tag: Box<(L, LB, L,)>, pub b: IpAddr, pub t0: [(L0,); 0] }
impl Model for S19 {
    fn schema() -> String { struct_schema(&[fieldx(<Box<(L, LB, L,)> as Model>::schema(), false, false, &[]), fieldx(<IpAddr as Model>::schema(), false, false, &[]), fieldx(<[(L0,); 0] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.tag.val(o); o.push(','); self.b.val(o); o.push(','); self.t0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let tag: Box<(L, LB, L,)> = <Box<(L, LB, L,)> as Model>::gen(r); let b: IpAddr = <IpAddr as Model>::gen(r); let t0: [(L0,); 0] = <[(L0,); 0] as Model>::gen(r); S19 { tag, b, t0 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.tag.borrows(f); self.b.borrows(f); self.t0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S20 { pub tag: L, pub bytes: Endianness, pub value: Box<L>, pub b: (L, Vec<LB>,) }
impl Model for S20 {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<Endianness as Model>::schema(), false, false, &[]), fieldx(<Box<L> as Model>::schema(), false, false, &[]), fieldx(<(L, Vec<LB>,) as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.tag.val(o); o.push(','); self.bytes.val(o); o.push(','); self.value.val(o); o.push(','); self.b.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let tag: L = <L as Model>::gen(r); let bytes: Endianness = <Endianness as Model>::gen(r); let value: Box<L> = <Box<L> as Model>::gen(r); let b: (L, Vec<LB>,) = <(L, Vec<LB>,) as Model>::gen(r); S20 { tag, bytes, value, b } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.tag.borrows(f); self.bytes.borrows(f); self.value.borrows(f); self.b.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct S21(pub L, pub Option<[L; 1]>, pub [HashSet<L>; 0], pub BTreeSet<L>, pub L0, pub usize);
impl Model for S21 {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<Option<[L; 1]> as Model>::schema(), false, false, &[]), fieldx(<[HashSet<L>; 0] as Model>::schema(), false, false, &[]), fieldx(<BTreeSet<L> as Model>::schema(), false, false, &[]), fieldx(<L0 as Model>::schema(), false, false, &[]), fieldx(<usize as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(','); self.5.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: L = <L as Model>::gen(r); let t1: Option<[L; 1]> = <Option<[L; 1]> as Model>::gen(r); let t2: [HashSet<L>; 0] = <[HashSet<L>; 0] as Model>::gen(r); let t3: BTreeSet<L> = <BTreeSet<L> as Model>::gen(r); let t4: L0 = <L0 as Model>::gen(r); let t5: usize = <usize as Model>::gen(r); S21(t0, t1, t2, t3, t4, t5) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); self.5.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S22 { pub count: L, pub data: (LB,) }
impl Model for S22 {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<(LB,) as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.count.val(o); o.push(','); self.data.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: L = <L as Model>::gen(r); let data: (LB,) = <(LB,) as Model>::gen(r); S22 { count, data } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); self.data.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct S23<'a> { pub reader: Cow<'a, [LB]>, pub key: [LB; 5], pub y: Vec<Vec<L>> }
impl Model for S23<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<Cow<'static, [LB]> as Model>::schema(), false, false, &[]), fieldx(<[LB; 5] as Model>::schema(), false, false, &[]), fieldx(<Vec<Vec<L>> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.reader.val(o); o.push(','); self.key.val(o); o.push(','); self.y.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let reader: Cow<'static, [LB]> = <Cow<'static, [LB]> as Model>::gen(r); let key: [LB; 5] = <[LB; 5] as Model>::gen(r); let y: Vec<Vec<L>> = <Vec<Vec<L>> as Model>::gen(r); S23 { reader, key, y } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.reader.borrows(f); self.key.borrows(f); self.y.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S24 { pub kind: [[L; 3]; 0], pub r#type: Vec<Vec<LB>>, pub size: L }
impl Model for S24 {
    fn schema() -> String { struct_schema(&[fieldx(<[[L; 3]; 0] as Model>::schema(), false, false, &[]), fieldx(<Vec<Vec<LB>> as Model>::schema(), false, false, &[]), fieldx(<L as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.kind.val(o); o.push(','); self.r#type.val(o); o.push(','); self.size.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let kind: [[L; 3]; 0] = <[[L; 3]; 0] as Model>::gen(r); let r#type: Vec<Vec<LB>> = <Vec<Vec<LB>> as Model>::gen(r); let size: L = <L as Model>::gen(r); S24 { kind, r#type, size } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.kind.borrows(f); self.r#type.borrows(f); self.size.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S25(pub Option<(L, L0, LB,)>);
impl Model for S25 {
    fn schema() -> String { struct_schema(&[fieldx(<Option<(L, L0, LB,)> as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<(L, L0, LB,)> = <Option<(L, L0, LB,)> as Model>::gen(r); S25(t0) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S26(pub LB, pub (NonZeroI16, LB, S13,));
impl Model for S26 {
    fn schema() -> String { struct_schema(&[fieldx(<LB as Model>::schema(), false, false, &[]), fieldx(<(NonZeroI16, LB, S13,) as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: LB = <LB as Model>::gen(r); let t1: (NonZeroI16, LB, S13,) = <(NonZeroI16, LB, S13,) as Model>::gen(r); S26(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S27 { pub value: L0 }
impl Model for S27 {
    fn schema() -> String { struct_schema(&[fieldx(<L0 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.value.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let value: L0 = <L0 as Model>::gen(r); S27 { value } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.value.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S28(pub Endianness, pub L0, pub L0, pub BTreeMap<L, Option<L0>>, pub SystemTime);
impl Model for S28 {
    fn schema() -> String { struct_schema(&[fieldx(<Endianness as Model>::schema(), false, false, &[]), fieldx(<L0 as Model>::schema(), false, false, &[]), fieldx(<L0 as Model>::schema(), false, false, &[]), fieldx(<BTreeMap<L, Option<L0>> as Model>::schema(), false, false, &[]), fieldx(<SystemTime as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Endianness = <Endianness as Model>::gen(r); let t1: L0 = <L0 as Model>::gen(r); let t2: L0 = <L0 as Model>::gen(r); let t3: BTreeMap<L, Option<L0>> = <BTreeMap<L, Option<L0>> as Model>::gen(r); let t4: SystemTime = <SystemTime as Model>::gen(r); S28(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S29(pub BTreeSet<L>, pub L, pub (HashSet<L>, Option<LB>,));
impl Model for S29 {
    fn schema() -> String { struct_schema(&[fieldx(<BTreeSet<L> as Model>::schema(), false, false, &[]), fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<(HashSet<L>, Option<LB>,) as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: BTreeSet<L> = <BTreeSet<L> as Model>::gen(r); let t1: L = <L as Model>::gen(r); let t2: (HashSet<L>, Option<LB>,) = <(HashSet<L>, Option<LB>,) as Model>::gen(r); S29(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[repr(C)] pub struct S30 { pub b: L0, pub id: LB, pub value: [LB; 5], pub data: HashSet<LB>, pub name: L0 }
impl Model for S30 {
    fn schema() -> String { struct_schema(&[fieldx(<L0 as Model>::schema(), false, false, &[]), fieldx(<LB as Model>::schema(), false, false, &[]), fieldx(<[LB; 5] as Model>::schema(), false, false, &[]), fieldx(<HashSet<LB> as Model>::schema(), false, false, &[]), fieldx(<L0 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.b.val(o); o.push(','); self.id.val(o); o.push(','); self.value.val(o); o.push(','); self.data.val(o); o.push(','); self.name.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let b: L0 = <L0 as Model>::gen(r); let id: LB = <LB as Model>::gen(r); let value: [LB; 5] = <[LB; 5] as Model>::gen(r); let data: HashSet<LB> = <HashSet<LB> as Model>::gen(r); let name: L0 = <L0 as Model>::gen(r); S30 { b, id, value, data, name } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.b.borrows(f); self.id.borrows(f); self.value.borrows(f); self.data.borrows(f); self.name.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub enum E31<'a> { #[speedy(tag = 4294967294)] V0 { tag: HashSet<LB>, t1: Vec<L> }, #[speedy(tag = 55)] V1(BTreeMap<L, LB>, String, Cow<'a, str>), #[speedy(tag = 4294967295)] V2 { key: S21 } }
impl Model for E31<'static> {
    fn schema() -> String { enum_schema("u32", false, &[(4294967294, vec![fieldx(<HashSet<LB> as Model>::schema(), false, false, &[]), fieldx(<Vec<L> as Model>::schema(), false, false, &[])]), (55, vec![fieldx(<BTreeMap<L, LB> as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, str> as Model>::schema(), false, false, &[])]), (4294967295, vec![fieldx(<S21 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E31::V0 { tag: f_0, t1: f_1 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E31::V1(f_0, f_1, f_2) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E31::V2 { key: f_0 } => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let tag: HashSet<LB> = <HashSet<LB> as Model>::gen(r); let t1: Vec<L> = <Vec<L> as Model>::gen(r); E31::V0 { tag, t1 } } 1 => { let t0: BTreeMap<L, LB> = <BTreeMap<L, LB> as Model>::gen(r); let t1: String = <String as Model>::gen(r); let t2: Cow<'static, str> = <Cow<'static, str> as Model>::gen(r); E31::V1(t0, t1, t2) } 2 => { let key: S21 = <S21 as Model>::gen(r); E31::V2 { key } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E31::V0 { tag: f_0, t1: f_1 } => { f_0.borrows(f); f_1.borrows(f); } E31::V1(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E31::V2 { key: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E32<'a> { #[speedy(tag = 8)] V0, V1 { a: Option<LB> }, #[speedy(tag = 254)] V2(Option<Cow<'a, HashSet<u16>>>), V3 { t0: L0, x: [[L; 5]; 1] }, #[speedy(tag = 160)] V4, #[speedy(tag = 100)] V5 { b: BTreeSet<LB>, reader: L0, length: HashMap<LB, LB> } }
impl Model for E32<'static> {
    fn schema() -> String { enum_schema("u8", false, &[(8, vec![]), (9, vec![fieldx(<Option<LB> as Model>::schema(), false, false, &[])]), (254, vec![fieldx(<Option<Cow<'static, HashSet<u16>>> as Model>::schema(), false, false, &[])]), (255, vec![fieldx(<L0 as Model>::schema(), false, false, &[]), fieldx(<[[L; 5]; 1] as Model>::schema(), false, false, &[])]), (160, vec![]), (100, vec![fieldx(<BTreeSet<LB> as Model>::schema(), false, false, &[]), fieldx(<L0 as Model>::schema(), false, false, &[]), fieldx(<HashMap<LB, LB> as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E32::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E32::V1 { a: f_0 } => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E32::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E32::V3 { t0: f_0, x: f_1 } => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E32::V4 => { o.push_str("[5,[");  o.push_str("]]"); } E32::V5 { b: f_0, reader: f_1, length: f_2 } => { o.push_str("[6,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => {  E32::V0 } 1 => { let a: Option<LB> = <Option<LB> as Model>::gen(r); E32::V1 { a } } 2 => { let t0: Option<Cow<'static, HashSet<u16>>> = <Option<Cow<'static, HashSet<u16>>> as Model>::gen(r); E32::V2(t0) } 3 => { let t0: L0 = <L0 as Model>::gen(r); let x: [[L; 5]; 1] = <[[L; 5]; 1] as Model>::gen(r); E32::V3 { t0, x } } 4 => {  E32::V4 } 5 => { let b: BTreeSet<LB> = <BTreeSet<LB> as Model>::gen(r); let reader: L0 = <L0 as Model>::gen(r); let length: HashMap<LB, LB> = <HashMap<LB, LB> as Model>::gen(r); E32::V5 { b, reader, length } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E32::V0 => {  } E32::V1 { a: f_0 } => { f_0.borrows(f); } E32::V2(f_0) => { f_0.borrows(f); } E32::V3 { t0: f_0, x: f_1 } => { f_0.borrows(f); f_1.borrows(f); } E32::V4 => {  } E32::V5 { b: f_0, reader: f_1, length: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E33 { #[speedy(tag = 17179869184)] V0((L,)) }
impl Model for E33 {
    fn schema() -> String { enum_schema("varint", false, &[(17179869184, vec![fieldx(<(L,) as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E33::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let t0: (L,) = <(L,) as Model>::gen(r); E33::V0(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E33::V0(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16)] pub enum E34 { V0(Box<BTreeMap<L, LB>>, LB), #[speedy(tag = 8192)] V1 { data: L, a: L0, t1: Vec<Vec<LB>> }, #[speedy(tag = 101)] V2 { t0: L0 } }
impl Model for E34 {
    fn schema() -> String { enum_schema("u16", false, &[(0, vec![fieldx(<Box<BTreeMap<L, LB>> as Model>::schema(), false, false, &[]), fieldx(<LB as Model>::schema(), false, false, &[])]), (8192, vec![fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<L0 as Model>::schema(), false, false, &[]), fieldx(<Vec<Vec<LB>> as Model>::schema(), false, false, &[])]), (101, vec![fieldx(<L0 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E34::V0(f_0, f_1) => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E34::V1 { data: f_0, a: f_1, t1: f_2 } => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E34::V2 { t0: f_0 } => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let t0: Box<BTreeMap<L, LB>> = <Box<BTreeMap<L, LB>> as Model>::gen(r); let t1: LB = <LB as Model>::gen(r); E34::V0(t0, t1) } 1 => { let data: L = <L as Model>::gen(r); let a: L0 = <L0 as Model>::gen(r); let t1: Vec<Vec<LB>> = <Vec<Vec<LB>> as Model>::gen(r); E34::V1 { data, a, t1 } } 2 => { let t0: L0 = <L0 as Model>::gen(r); E34::V2 { t0 } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E34::V0(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E34::V1 { data: f_0, a: f_1, t1: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E34::V2 { t0: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16)] pub enum E35 { #[speedy(tag = 1)] V0 { len: L, r#type: S7 }, #[speedy(tag = 32)] V1, #[speedy(tag = 0)] V2(Vec<[L; 0]>), #[speedy(tag = 16384)] V3(LB), #[speedy(tag = 65535)] V4 { result: Option<L0>, tag: L0, error: L }, #[speedy(tag = 189)] V5 { a: LB } }
impl Model for E35 {
    fn schema() -> String { enum_schema("u16", false, &[(1, vec![fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<S7 as Model>::schema(), false, false, &[])]), (32, vec![]), (0, vec![fieldx(<Vec<[L; 0]> as Model>::schema(), false, false, &[])]), (16384, vec![fieldx(<LB as Model>::schema(), false, false, &[])]), (65535, vec![fieldx(<Option<L0> as Model>::schema(), false, false, &[]), fieldx(<L0 as Model>::schema(), false, false, &[]), fieldx(<L as Model>::schema(), false, false, &[])]), (189, vec![fieldx(<LB as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E35::V0 { len: f_0, r#type: f_1 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E35::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E35::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E35::V3(f_0) => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } E35::V4 { result: f_0, tag: f_1, error: f_2 } => { o.push_str("[5,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E35::V5 { a: f_0 } => { o.push_str("[6,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let len: L = <L as Model>::gen(r); let r#type: S7 = <S7 as Model>::gen(r); E35::V0 { len, r#type } } 1 => {  E35::V1 } 2 => { let t0: Vec<[L; 0]> = <Vec<[L; 0]> as Model>::gen(r); E35::V2(t0) } 3 => { let t0: LB = <LB as Model>::gen(r); E35::V3(t0) } 4 => { let result: Option<L0> = <Option<L0> as Model>::gen(r); let tag: L0 = <L0 as Model>::gen(r); let error: L = <L as Model>::gen(r); E35::V4 { result, tag, error } } 5 => { let a: LB = <LB as Model>::gen(r); E35::V5 { a } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E35::V0 { len: f_0, r#type: f_1 } => { f_0.borrows(f); f_1.borrows(f); } E35::V1 => {  } E35::V2(f_0) => { f_0.borrows(f); } E35::V3(f_0) => { f_0.borrows(f); } E35::V4 { result: f_0, tag: f_1, error: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E35::V5 { a: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u7)] pub enum E36 { #[speedy(tag = 1)] V0 }
impl Model for E36 {
    fn schema() -> String { enum_schema("u7", false, &[(1, vec![])]) }
    fn val(&self, o: &mut String) { match self { E36::V0 => { o.push_str("[1,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => {  E36::V0 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E36::V0 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum E37 { V0 { bytes: HashSet<L> } }
impl Model for E37 {
    fn schema() -> String { enum_schema("u64", false, &[(0, vec![fieldx(<HashSet<L> as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E37::V0 { bytes: f_0 } => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let bytes: HashSet<L> = <HashSet<L> as Model>::gen(r); E37::V0 { bytes } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E37::V0 { bytes: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64)] pub enum E38 { #[speedy(tag = 18446744073709551613)] V0 { count: Option<BTreeMap<L, LB>>, kind: Vec<[L; 3]>, value: L }, V1(LB), #[speedy(tag = 1024)] V2, #[speedy(tag = 147)] V3(L), V4(L0, L0, HashMap<L0, L0>), #[speedy(tag = 64)] V5(Vec<BTreeSet<L0>>) }
impl Model for E38 {
    fn schema() -> String { enum_schema("u64", false, &[(18446744073709551613, vec![fieldx(<Option<BTreeMap<L, LB>> as Model>::schema(), false, false, &[]), fieldx(<Vec<[L; 3]> as Model>::schema(), false, false, &[]), fieldx(<L as Model>::schema(), false, false, &[])]), (18446744073709551614, vec![fieldx(<LB as Model>::schema(), false, false, &[])]), (1024, vec![]), (147, vec![fieldx(<L as Model>::schema(), false, false, &[])]), (148, vec![fieldx(<L0 as Model>::schema(), false, false, &[]), fieldx(<L0 as Model>::schema(), false, false, &[]), fieldx(<HashMap<L0, L0> as Model>::schema(), false, false, &[])]), (64, vec![fieldx(<Vec<BTreeSet<L0>> as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E38::V0 { count: f_0, kind: f_1, value: f_2 } => { o.push_str("[1,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E38::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E38::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E38::V3(f_0) => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } E38::V4(f_0, f_1, f_2) => { o.push_str("[5,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E38::V5(f_0) => { o.push_str("[6,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let count: Option<BTreeMap<L, LB>> = <Option<BTreeMap<L, LB>> as Model>::gen(r); let kind: Vec<[L; 3]> = <Vec<[L; 3]> as Model>::gen(r); let value: L = <L as Model>::gen(r); E38::V0 { count, kind, value } } 1 => { let t0: LB = <LB as Model>::gen(r); E38::V1(t0) } 2 => {  E38::V2 } 3 => { let t0: L = <L as Model>::gen(r); E38::V3(t0) } 4 => { let t0: L0 = <L0 as Model>::gen(r); let t1: L0 = <L0 as Model>::gen(r); let t2: HashMap<L0, L0> = <HashMap<L0, L0> as Model>::gen(r); E38::V4(t0, t1, t2) } 5 => { let t0: Vec<BTreeSet<L0>> = <Vec<BTreeSet<L0>> as Model>::gen(r); E38::V5(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E38::V0 { count: f_0, kind: f_1, value: f_2 } => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E38::V1(f_0) => { f_0.borrows(f); } E38::V2 => {  } E38::V3(f_0) => { f_0.borrows(f); } E38::V4(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E38::V5(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16)] pub enum E39 { #[speedy(tag = 2)] V0(LB), #[speedy(tag = 65533)] V1, #[speedy(tag = 0)] V2([String; 1]), #[speedy(tag = 22)] V3(S4, Vec<LB>, Vec<String>), #[speedy(tag = 22890)] V4 { b: L }, V5 }
impl Model for E39 {
    fn schema() -> String { enum_schema("u16", false, &[(2, vec![fieldx(<LB as Model>::schema(), false, false, &[])]), (65533, vec![]), (0, vec![fieldx(<[String; 1] as Model>::schema(), false, false, &[])]), (22, vec![fieldx(<S4 as Model>::schema(), false, false, &[]), fieldx(<Vec<LB> as Model>::schema(), false, false, &[]), fieldx(<Vec<String> as Model>::schema(), false, false, &[])]), (22890, vec![fieldx(<L as Model>::schema(), false, false, &[])]), (22891, vec![])]) }
    fn val(&self, o: &mut String) { match self { E39::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E39::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E39::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E39::V3(f_0, f_1, f_2) => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E39::V4 { b: f_0 } => { o.push_str("[5,["); f_0.val(o); o.push_str("]]"); } E39::V5 => { o.push_str("[6,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => { let t0: LB = <LB as Model>::gen(r); E39::V0(t0) } 1 => {  E39::V1 } 2 => { let t0: [String; 1] = <[String; 1] as Model>::gen(r); E39::V2(t0) } 3 => { let t0: S4 = <S4 as Model>::gen(r); let t1: Vec<LB> = <Vec<LB> as Model>::gen(r); let t2: Vec<String> = <Vec<String> as Model>::gen(r); E39::V3(t0, t1, t2) } 4 => { let b: L = <L as Model>::gen(r); E39::V4 { b } } 5 => {  E39::V5 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E39::V0(f_0) => { f_0.borrows(f); } E39::V1 => {  } E39::V2(f_0) => { f_0.borrows(f); } E39::V3(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E39::V4 { b: f_0 } => { f_0.borrows(f); } E39::V5 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E40 { #[speedy(tag = 268435456)] V0, #[speedy(tag = 969060722295238661)] V1, V2 { rest: L }, #[speedy(tag = 3)] V3(LB), #[speedy(tag = 16384)] V4(L), #[speedy(tag = 186)] V5 }
impl Model for E40 {
    fn schema() -> String { enum_schema("varint", false, &[(268435456, vec![]), (969060722295238661, vec![]), (969060722295238662, vec![fieldx(<L as Model>::schema(), false, false, &[])]), (3, vec![fieldx(<LB as Model>::schema(), false, false, &[])]), (16384, vec![fieldx(<L as Model>::schema(), false, false, &[])]), (186, vec![])]) }
    fn val(&self, o: &mut String) { match self { E40::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E40::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E40::V2 { rest: f_0 } => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E40::V3(f_0) => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } E40::V4(f_0) => { o.push_str("[5,["); f_0.val(o); o.push_str("]]"); } E40::V5 => { o.push_str("[6,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(6) { 0 => {  E40::V0 } 1 => {  E40::V1 } 2 => { let rest: L = <L as Model>::gen(r); E40::V2 { rest } } 3 => { let t0: LB = <LB as Model>::gen(r); E40::V3(t0) } 4 => { let t0: L = <L as Model>::gen(r); E40::V4(t0) } 5 => {  E40::V5 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E40::V0 => {  } E40::V1 => {  } E40::V2 { rest: f_0 } => { f_0.borrows(f); } E40::V3(f_0) => { f_0.borrows(f); } E40::V4(f_0) => { f_0.borrows(f); } E40::V5 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub enum E41 { V0 }
impl Model for E41 {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![])]) }
    fn val(&self, o: &mut String) { match self { E41::V0 => { o.push_str("[1,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => {  E41::V0 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E41::V0 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16)] pub enum E42 { #[speedy(tag = 38595)] V0, #[speedy(tag = 32768)] V1, V2, #[speedy(tag = 0)] V3 }
impl Model for E42 {
    fn schema() -> String { enum_schema("u16", false, &[(38595, vec![]), (32768, vec![]), (32769, vec![]), (0, vec![])]) }
    fn val(&self, o: &mut String) { match self { E42::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E42::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E42::V2 => { o.push_str("[3,[");  o.push_str("]]"); } E42::V3 => { o.push_str("[4,[");  o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => {  E42::V0 } 1 => {  E42::V1 } 2 => {  E42::V2 } 3 => {  E42::V3 } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E42::V0 => {  } E42::V1 => {  } E42::V2 => {  } E42::V3 => {  } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u16)] pub enum E43 { #[speedy(tag = 32)] V0(L), #[speedy(tag = 65534)] V1(L, L) }
impl Model for E43 {
    fn schema() -> String { enum_schema("u16", false, &[(32, vec![fieldx(<L as Model>::schema(), false, false, &[])]), (65534, vec![fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<L as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E43::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E43::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(2) { 0 => { let t0: L = <L as Model>::gen(r); E43::V0(t0) } 1 => { let t0: L = <L as Model>::gen(r); let t1: L = <L as Model>::gen(r); E43::V1(t0, t1) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E43::V0(f_0) => { f_0.borrows(f); } E43::V1(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub enum E44 { #[speedy(tag = 134)] V0, #[speedy(tag = 268435456)] V1, V2 { out: HashMap<L, L> }, #[speedy(tag = 3414017114)] V3 { bytes: IpAddr, rest: Option<SystemTime> } }
impl Model for E44 {
    fn schema() -> String { enum_schema("u32", false, &[(134, vec![]), (268435456, vec![]), (268435457, vec![fieldx(<HashMap<L, L> as Model>::schema(), false, false, &[])]), (3414017114, vec![fieldx(<IpAddr as Model>::schema(), false, false, &[]), fieldx(<Option<SystemTime> as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E44::V0 => { o.push_str("[1,[");  o.push_str("]]"); } E44::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E44::V2 { out: f_0 } => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E44::V3 { bytes: f_0, rest: f_1 } => { o.push_str("[4,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => {  E44::V0 } 1 => {  E44::V1 } 2 => { let out: HashMap<L, L> = <HashMap<L, L> as Model>::gen(r); E44::V2 { out } } 3 => { let bytes: IpAddr = <IpAddr as Model>::gen(r); let rest: Option<SystemTime> = <Option<SystemTime> as Model>::gen(r); E44::V3 { bytes, rest } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E44::V0 => {  } E44::V1 => {  } E44::V2 { out: f_0 } => { f_0.borrows(f); } E44::V3 { bytes: f_0, rest: f_1 } => { f_0.borrows(f); f_1.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S45<'a> { #[speedy(length_type = u7)] pub key: String, #[speedy(length_type = u64)] pub kind: Option<Cow<'a, str>>, pub tag: L0 }
impl Model for S45<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(with_lt(<Option<Cow<'static, str>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(<L0 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.key.val(o); o.push(','); self.kind.val(o); o.push(','); self.tag.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let key: String = { gen_upto::<String>(r, "u7") }; let kind: Option<Cow<'static, str>> = { gen_upto::<Option<Cow<'static, str>>>(r, "u64") }; let tag: L0 = <L0 as Model>::gen(r); S45 { key, kind, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.key.borrows(f); self.kind.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S46<'a> { #[speedy(length_type = u64_varint)] pub slice: Cow<'a, str>, pub y: u8, #[speedy(length_type = u64_varint)] pub error: BTreeSet<L0>, pub result: u8, #[speedy(length_type = u7)] pub flags: BTreeMap<LB, String> }
impl Model for S46<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, str> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<BTreeSet<L0> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<BTreeMap<LB, String> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.slice.val(o); o.push(','); self.y.val(o); o.push(','); self.error.val(o); o.push(','); self.result.val(o); o.push(','); self.flags.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let slice: Cow<'static, str> = { gen_upto::<Cow<'static, str>>(r, "varint") }; let y: u8 = (r.below(24) as u8); let error: BTreeSet<L0> = { gen_upto::<BTreeSet<L0>>(r, "varint") }; let result: u8 = (r.below(24) as u8); let flags: BTreeMap<LB, String> = { gen_upto::<BTreeMap<LB, String>>(r, "u7") }; S46 { slice, y, error, result, flags } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.slice.borrows(f); self.y.borrows(f); self.error.borrows(f); self.result.borrows(f); self.flags.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S47<'a> { pub key: BTreeMap<L, L>, #[speedy(length_type = u64_varint)] pub out: Cow<'a, [L]>, pub t0: u8, #[speedy(length_type = u64_varint)] pub a: Vec<u8>, pub r#type: u8 }
impl Model for S47<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<BTreeMap<L, L> as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, [L]> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.key.val(o); o.push(','); self.out.val(o); o.push(','); self.t0.val(o); o.push(','); self.a.val(o); o.push(','); self.r#type.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let key: BTreeMap<L, L> = <BTreeMap<L, L> as Model>::gen(r); let out: Cow<'static, [L]> = { gen_upto::<Cow<'static, [L]>>(r, "varint") }; let t0: u8 = (r.below(24) as u8); let a: Vec<u8> = { gen_upto::<Vec<u8>>(r, "varint") }; let r#type: u8 = (r.below(24) as u8); S47 { key, out, t0, a, r#type } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.key.borrows(f); self.out.borrows(f); self.t0.borrows(f); self.a.borrows(f); self.r#type.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S48<'a> { pub len: [Option<L0>; 3], #[speedy(length = ..)] pub error: Cow<'a, BTreeSet<u16>> }
impl Model for S48<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<[Option<L0>; 3] as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeSet<u16>> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.len.val(o); o.push(','); self.error.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: [Option<L0>; 3] = <[Option<L0>; 3] as Model>::gen(r); let error: Cow<'static, BTreeSet<u16>> = <Cow<'static, BTreeSet<u16>> as Model>::gen(r); S48 { len, error } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); self.error.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S49<'a> { pub data: L, #[speedy(length_type = u32)] pub value: Cow<'a, HashSet<u32>>, pub t0: Box<[L; 2]>, #[speedy(varint)] pub len: u64, #[speedy(length_type = u32)] pub t1: BTreeMap<L0, LB> }
impl Model for S49<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, HashSet<u32>> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(<Box<[L; 2]> as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(with_lt(<BTreeMap<L0, LB> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.data.val(o); o.push(','); self.value.val(o); o.push(','); self.t0.val(o); o.push(','); self.len.val(o); o.push(','); self.t1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let data: L = <L as Model>::gen(r); let value: Cow<'static, HashSet<u32>> = { gen_upto::<Cow<'static, HashSet<u32>>>(r, "u32") }; let t0: Box<[L; 2]> = <Box<[L; 2]> as Model>::gen(r); let len: u64 = <u64 as Model>::gen(r); let t1: BTreeMap<L0, LB> = { gen_upto::<BTreeMap<L0, LB>>(r, "u32") }; S49 { data, value, t0, len, t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.data.borrows(f); self.value.borrows(f); self.t0.borrows(f); self.len.borrows(f); self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S50 { pub length: u16, pub count: u8, #[speedy(length = count)] pub value: HashMap<L0, [char; 1]>, #[speedy(varint)] pub reader: u64, pub r#type: () }
impl Model for S50 {
    fn schema() -> String { struct_schema(&[fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<HashMap<L0, [char; 1]> as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"f\",\"i\":2},\"nm\":\"value\"}"), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(<() as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.length.val(o); o.push(','); self.count.val(o); o.push(','); self.value.val(o); o.push(','); self.reader.val(o); o.push(','); self.r#type.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: u16 = (r.below(24) as u16); let count: u8 = (r.below(24) as u8); let value: HashMap<L0, [char; 1]> = { let n = (count) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <HashMap<L0, [char; 1]> as GenN>::gen_n(r, n) }; let reader: u64 = <u64 as Model>::gen(r); let r#type: () = <() as Model>::gen(r); S50 { length, count, value, reader, r#type } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); self.count.borrows(f); self.value.borrows(f); self.reader.borrows(f); self.r#type.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S51<'a>(#[speedy(length_type = u64_varint)] pub &'a [u8], pub u8);
impl Model for S51<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<&'static [u8] as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: &'static [u8] = { gen_upto::<&'static [u8]>(r, "varint") }; let t1: u8 = (r.below(24) as u8); S51(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S52<'a>(#[speedy(length_type = u32)] pub Cow<'a, BTreeMap<u16, HashSet<L>>>, #[speedy(length_type = u8)] pub String, pub String);
impl Model for S52<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, BTreeMap<u16, HashSet<L>>> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Cow<'static, BTreeMap<u16, HashSet<L>>> = { gen_upto::<Cow<'static, BTreeMap<u16, HashSet<L>>>>(r, "u32") }; let t1: String = { gen_upto::<String>(r, "u8") }; let t2: String = <String as Model>::gen(r); S52(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S53(#[speedy(length_type = u64_varint)] pub Vec<u32>, #[speedy(length_type = u64)] pub String, #[speedy(length_type = u64)] pub BTreeSet<L>, #[speedy(length_type = u16)] pub Option<Vec<L>>);
impl Model for S53 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<u32> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(with_lt(<BTreeSet<L> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(with_lt(<Option<Vec<L>> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<u32> = { gen_upto::<Vec<u32>>(r, "varint") }; let t1: String = { gen_upto::<String>(r, "u64") }; let t2: BTreeSet<L> = { gen_upto::<BTreeSet<L>>(r, "u64") }; let t3: Option<Vec<L>> = { gen_upto::<Option<Vec<L>>>(r, "u16") }; S53(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S54<'a>(#[speedy(length_type = u16)] pub Option<Cow<'a, [LB]>>, #[speedy(length_type = u64)] pub HashMap<L0, L0>);
impl Model for S54<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<Cow<'static, [LB]>> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<HashMap<L0, L0> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Option<Cow<'static, [LB]>> = { gen_upto::<Option<Cow<'static, [LB]>>>(r, "u16") }; let t1: HashMap<L0, L0> = { gen_upto::<HashMap<L0, L0>>(r, "u64") }; S54(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S55<'a>(pub [(L, L,); 3], pub u8, pub String, #[speedy(length_type = u64)] pub Cow<'a, BTreeSet<u16>>);
impl Model for S55<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<[(L, L,); 3] as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeSet<u16>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: [(L, L,); 3] = <[(L, L,); 3] as Model>::gen(r); let t1: u8 = (r.below(24) as u8); let t2: String = <String as Model>::gen(r); let t3: Cow<'static, BTreeSet<u16>> = { gen_upto::<Cow<'static, BTreeSet<u16>>>(r, "u64") }; S55(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S56 { #[speedy(length_type = u32)] pub x: Vec<L>, pub b: u8, #[speedy(length = b / 2)] pub length: String }
impl Model for S56 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<L> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"div\",\"a\":{\"x\":\"f\",\"i\":2},\"b\":{\"x\":\"n\",\"n\":2}},\"nm\":\"length\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.x.val(o); o.push(','); self.b.val(o); o.push(','); self.length.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let x: Vec<L> = { gen_upto::<Vec<L>>(r, "u32") }; let b: u8 = (r.below(24) as u8); let length: String = { let n = (b / 2) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <String as GenN>::gen_n(r, n) }; S56 { x, b, length } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.x.borrows(f); self.b.borrows(f); self.length.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S57<'a>(#[speedy(varint)] pub u64, #[speedy(length = ..)] pub Cow<'a, BTreeSet<u16>>);
impl Model for S57<'static> {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeSet<u16>> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let t1: Cow<'static, BTreeSet<u16>> = <Cow<'static, BTreeSet<u16>> as Model>::gen(r); S57(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S58<'a>(pub Vec<L>, #[speedy(length_type = u7)] pub Vec<u8>, #[speedy(length = ..)] pub Cow<'a, HashMap<u16, u8>>);
impl Model for S58<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<Vec<L> as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, HashMap<u16, u8>> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<L> = <Vec<L> as Model>::gen(r); let t1: Vec<u8> = { gen_upto::<Vec<u8>>(r, "u7") }; let t2: Cow<'static, HashMap<u16, u8>> = <Cow<'static, HashMap<u16, u8>> as Model>::gen(r); S58(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S59<'a>(#[speedy(length_type = u64_varint)] pub Vec<Cow<'a, BTreeMap<u8, u32>>>, #[speedy(length_type = u32)] pub BTreeMap<L, Option<L>>);
impl Model for S59<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<Cow<'static, BTreeMap<u8, u32>>> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<BTreeMap<L, Option<L>> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<Cow<'static, BTreeMap<u8, u32>>> = { gen_upto::<Vec<Cow<'static, BTreeMap<u8, u32>>>>(r, "varint") }; let t1: BTreeMap<L, Option<L>> = { gen_upto::<BTreeMap<L, Option<L>>>(r, "u32") }; S59(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S60<'a>(#[speedy(length_type = u64)] pub Cow<'a, HashMap<u16, u8>>, #[speedy(length_type = u8)] pub Cow<'a, BTreeMap<u16, String>>, #[speedy(length_type = u64_varint)] pub Option<HashSet<L>>, pub String);
impl Model for S60<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, HashMap<u16, u8>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeMap<u16, String>> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<Option<HashSet<L>> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Cow<'static, HashMap<u16, u8>> = { gen_upto::<Cow<'static, HashMap<u16, u8>>>(r, "u64") }; let t1: Cow<'static, BTreeMap<u16, String>> = { gen_upto::<Cow<'static, BTreeMap<u16, String>>>(r, "u8") }; let t2: Option<HashSet<L>> = { gen_upto::<Option<HashSet<L>>>(r, "varint") }; let t3: String = <String as Model>::gen(r); S60(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S61<'a>(pub Vec<L0>, #[speedy(length_type = u32)] pub Vec<[L; 3]>, #[speedy(length_type = u32)] pub Cow<'a, str>, #[speedy(length_type = u64)] pub BTreeMap<L0, String>, pub u8);
impl Model for S61<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<Vec<L0> as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<[L; 3]> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, str> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(with_lt(<BTreeMap<L0, String> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<L0> = <Vec<L0> as Model>::gen(r); let t1: Vec<[L; 3]> = { gen_upto::<Vec<[L; 3]>>(r, "u32") }; let t2: Cow<'static, str> = { gen_upto::<Cow<'static, str>>(r, "u32") }; let t3: BTreeMap<L0, String> = { gen_upto::<BTreeMap<L0, String>>(r, "u64") }; let t4: u8 = (r.below(24) as u8); S61(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S62<'a>(#[speedy(length_type = u32)] pub Cow<'a, HashMap<u16, u8>>, #[speedy(length_type = u16)] pub Option<Cow<'a, str>>, #[speedy(length_type = u32)] pub Cow<'a, BTreeMap<u16, Option<L>>>, #[speedy(length_type = u8)] pub HashSet<L>, #[speedy(length_type = u64)] pub BTreeMap<L0, String>);
impl Model for S62<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, HashMap<u16, u8>> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(with_lt(<Option<Cow<'static, str>> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, BTreeMap<u16, Option<L>>> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(with_lt(<HashSet<L> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<BTreeMap<L0, String> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Cow<'static, HashMap<u16, u8>> = { gen_upto::<Cow<'static, HashMap<u16, u8>>>(r, "u32") }; let t1: Option<Cow<'static, str>> = { gen_upto::<Option<Cow<'static, str>>>(r, "u16") }; let t2: Cow<'static, BTreeMap<u16, Option<L>>> = { gen_upto::<Cow<'static, BTreeMap<u16, Option<L>>>>(r, "u32") }; let t3: HashSet<L> = { gen_upto::<HashSet<L>>(r, "u8") }; let t4: BTreeMap<L0, String> = { gen_upto::<BTreeMap<L0, String>>(r, "u64") }; S62(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S63 { pub x: u8, #[speedy(length = x)] pub len: String, #[speedy(length_type = u16)] pub data: Vec<u32> }
impl Model for S63 {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"f\",\"i\":1},\"nm\":\"len\"}"), false, false, &[]), fieldx(with_lt(<Vec<u32> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.x.val(o); o.push(','); self.len.val(o); o.push(','); self.data.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let x: u8 = (r.below(24) as u8); let len: String = { let n = (x) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <String as GenN>::gen_n(r, n) }; let data: Vec<u32> = { gen_upto::<Vec<u32>>(r, "u16") }; S63 { x, len, data } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.x.borrows(f); self.len.borrows(f); self.data.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S64(#[speedy(length_type = u7)] pub Vec<u8>, pub u32);
impl Model for S64 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(<u32 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<u8> = { gen_upto::<Vec<u8>>(r, "u7") }; let t1: u32 = (r.below(24) as u32); S64(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S65<'a>(pub LB, pub S17<'a>, #[speedy(varint)] pub u64);
impl Model for S65<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<LB as Model>::schema(), false, false, &[]), fieldx(<S17<'static> as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: LB = <LB as Model>::gen(r); let t1: S17<'static> = <S17<'static> as Model>::gen(r); let t2: u64 = <u64 as Model>::gen(r); S65(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S66 { #[speedy(varint)] pub a: u64, pub b: LB, #[speedy(length_type = u64_varint)] pub id: BTreeSet<L>, #[speedy(varint)] pub count: u64, #[speedy(length = ..)] pub result: Vec<L> }
impl Model for S66 {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(<LB as Model>::schema(), false, false, &[]), fieldx(with_lt(<BTreeSet<L> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(with_lt(<Vec<L> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.a.val(o); o.push(','); self.b.val(o); o.push(','); self.id.val(o); o.push(','); self.count.val(o); o.push(','); self.result.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let a: u64 = <u64 as Model>::gen(r); let b: LB = <LB as Model>::gen(r); let id: BTreeSet<L> = { gen_upto::<BTreeSet<L>>(r, "varint") }; let count: u64 = <u64 as Model>::gen(r); let result: Vec<L> = <Vec<L> as Model>::gen(r); S66 { a, b, id, count, result } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.a.borrows(f); self.b.borrows(f); self.id.borrows(f); self.count.borrows(f); self.result.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S67<'a> { pub data: L, #[speedy(length_type = u7)] pub b: Option<Cow<'a, HashMap<u16, u8>>>, #[speedy(length = ..)] pub tag: String }
impl Model for S67<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(with_lt(<Option<Cow<'static, HashMap<u16, u8>>> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.data.val(o); o.push(','); self.b.val(o); o.push(','); self.tag.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let data: L = <L as Model>::gen(r); let b: Option<Cow<'static, HashMap<u16, u8>>> = { gen_upto::<Option<Cow<'static, HashMap<u16, u8>>>>(r, "u7") }; let tag: String = <String as Model>::gen(r); S67 { data, b, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.data.borrows(f); self.b.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S68<'a>(#[speedy(length_type = u32)] pub Vec<u8>, #[speedy(length_type = u16)] pub Vec<u8>, #[speedy(length = ..)] pub Cow<'a, str>);
impl Model for S68<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, str> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<u8> = { gen_upto::<Vec<u8>>(r, "u32") }; let t1: Vec<u8> = { gen_upto::<Vec<u8>>(r, "u16") }; let t2: Cow<'static, str> = <Cow<'static, str> as Model>::gen(r); S68(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S69<'a> { pub size: L, pub result: HashMap<LB, Cow<'a, HashSet<u16>>>, #[speedy(length = ..)] pub x: Vec<u8> }
impl Model for S69<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<HashMap<LB, Cow<'static, HashSet<u16>>> as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<u8> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.size.val(o); o.push(','); self.result.val(o); o.push(','); self.x.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let size: L = <L as Model>::gen(r); let result: HashMap<LB, Cow<'static, HashSet<u16>>> = <HashMap<LB, Cow<'static, HashSet<u16>>> as Model>::gen(r); let x: Vec<u8> = <Vec<u8> as Model>::gen(r); S69 { size, result, x } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.size.borrows(f); self.result.borrows(f); self.x.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S70 { #[speedy(length_type = u8)] pub out: Vec<String>, #[speedy(length_type = u16)] pub y: Vec<L0>, pub slice: LB, #[speedy(varint)] pub b: u64 }
impl Model for S70 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<String> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(with_lt(<Vec<L0> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(<LB as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.out.val(o); o.push(','); self.y.val(o); o.push(','); self.slice.val(o); o.push(','); self.b.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: Vec<String> = { gen_upto::<Vec<String>>(r, "u8") }; let y: Vec<L0> = { gen_upto::<Vec<L0>>(r, "u16") }; let slice: LB = <LB as Model>::gen(r); let b: u64 = <u64 as Model>::gen(r); S70 { out, y, slice, b } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.out.borrows(f); self.y.borrows(f); self.slice.borrows(f); self.b.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S71<'a> { pub id: u8, #[speedy(length = id)] pub name: Cow<'a, str> }
impl Model for S71<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, str> as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"f\",\"i\":1},\"nm\":\"name\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.id.val(o); o.push(','); self.name.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let id: u8 = (r.below(24) as u8); let name: Cow<'static, str> = { let n = (id) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <Cow<'static, str> as GenN>::gen_n(r, n) }; S71 { id, name } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.id.borrows(f); self.name.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S72 { #[speedy(length_type = u32)] pub b: Option<BTreeSet<L>>, pub slice: u16, #[speedy(varint)] pub reader: u64, #[speedy(length_type = u64)] pub value: Vec<HashMap<L, L>>, #[speedy(length_type = u64)] pub key: Option<Vec<L>> }
impl Model for S72 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Option<BTreeSet<L>> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(<u16 as Model>::schema(), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(with_lt(<Vec<HashMap<L, L>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(with_lt(<Option<Vec<L>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.b.val(o); o.push(','); self.slice.val(o); o.push(','); self.reader.val(o); o.push(','); self.value.val(o); o.push(','); self.key.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let b: Option<BTreeSet<L>> = { gen_upto::<Option<BTreeSet<L>>>(r, "u32") }; let slice: u16 = (r.below(24) as u16); let reader: u64 = <u64 as Model>::gen(r); let value: Vec<HashMap<L, L>> = { gen_upto::<Vec<HashMap<L, L>>>(r, "u64") }; let key: Option<Vec<L>> = { gen_upto::<Option<Vec<L>>>(r, "u64") }; S72 { b, slice, reader, value, key } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.b.borrows(f); self.slice.borrows(f); self.reader.borrows(f); self.value.borrows(f); self.key.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S73<'a> { pub a: u8, #[speedy(length = a)] pub len: Cow<'a, HashMap<u16, u8>>, pub result: String, #[speedy(length = a % 4)] pub slice: HashSet<L> }
impl Model for S73<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Cow<'static, HashMap<u16, u8>> as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"f\",\"i\":1},\"nm\":\"len\"}"), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[]), fieldx(with_lt(<HashSet<L> as Model>::schema(), "{\"l\":\"x\",\"x\":{\"x\":\"mod\",\"a\":{\"x\":\"f\",\"i\":1},\"b\":{\"x\":\"n\",\"n\":4}},\"nm\":\"slice\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.a.val(o); o.push(','); self.len.val(o); o.push(','); self.result.val(o); o.push(','); self.slice.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let a: u8 = (r.below(24) as u8); let len: Cow<'static, HashMap<u16, u8>> = { let n = (a) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <Cow<'static, HashMap<u16, u8>> as GenN>::gen_n(r, n) }; let result: String = <String as Model>::gen(r); let slice: HashSet<L> = { let n = (a % 4) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <HashSet<L> as GenN>::gen_n(r, n) }; S73 { a, len, result, slice } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.a.borrows(f); self.len.borrows(f); self.result.borrows(f); self.slice.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S74(pub L, pub LB, pub u8, #[speedy(length_type = u64)] pub Option<Vec<Ipv6Addr>>);
impl Model for S74 {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<LB as Model>::schema(), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Option<Vec<Ipv6Addr>> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: L = <L as Model>::gen(r); let t1: LB = <LB as Model>::gen(r); let t2: u8 = (r.below(24) as u8); let t3: Option<Vec<Ipv6Addr>> = { gen_upto::<Option<Vec<Ipv6Addr>>>(r, "u64") }; S74(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S75 { pub kind: Uuid, #[speedy(constant_prefix = -128i8)] pub reader: Vec<Vec<L>>, #[speedy(skip)] pub tag: String }
impl Model for S75 {
    fn schema() -> String { struct_schema(&[fieldx(<Uuid as Model>::schema(), false, false, &[]), fieldx(<Vec<Vec<L>> as Model>::schema(), false, false, &[128]), fieldx(<String as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.kind.val(o); o.push(','); self.reader.val(o); o.push(','); self.tag.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let kind: Uuid = <Uuid as Model>::gen(r); let reader: Vec<Vec<L>> = <Vec<Vec<L>> as Model>::gen(r); let tag: String = <String as Model>::gen(r); S75 { kind, reader, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.kind.borrows(f); self.reader.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S76<'a> { pub kind: LB, #[speedy(constant_prefix = true)] pub r#type: Cow<'a, HashSet<u16>>, #[speedy(skip)] pub value: L0, #[speedy(default_on_eof)] pub id: BTreeMap<L0, Vec<Ipv6Addr>> }
impl Model for S76<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<LB as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, HashSet<u16>> as Model>::schema(), false, false, &[1]), fieldx(<L0 as Model>::schema(), false, true, &[]), fieldx(<BTreeMap<L0, Vec<Ipv6Addr>> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.kind.val(o); o.push(','); self.r#type.val(o); o.push(','); self.value.val(o); o.push(','); self.id.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let kind: LB = <LB as Model>::gen(r); let r#type: Cow<'static, HashSet<u16>> = <Cow<'static, HashSet<u16>> as Model>::gen(r); let value: L0 = <L0 as Model>::gen(r); let id: BTreeMap<L0, Vec<Ipv6Addr>> = <BTreeMap<L0, Vec<Ipv6Addr>> as Model>::gen(r); S76 { kind, r#type, value, id } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.kind.borrows(f); self.r#type.borrows(f); self.value.borrows(f); self.id.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S77<'a> { #[speedy(skip)] pub out: [(L0,); 5], #[speedy(constant_prefix = b"RU")] pub error: Cow<'a, BTreeMap<u8, u32>>, #[speedy(constant_prefix = "")] pub x: L }
impl Model for S77<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<[(L0,); 5] as Model>::schema(), false, true, &[]), fieldx(<Cow<'static, BTreeMap<u8, u32>> as Model>::schema(), false, false, &[82, 85]), fieldx(<L as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.out.val(o); o.push(','); self.error.val(o); o.push(','); self.x.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: [(L0,); 5] = <[(L0,); 5] as Model>::gen(r); let error: Cow<'static, BTreeMap<u8, u32>> = <Cow<'static, BTreeMap<u8, u32>> as Model>::gen(r); let x: L = <L as Model>::gen(r); S77 { out, error, x } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.out.borrows(f); self.error.borrows(f); self.x.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S78 { #[speedy(constant_prefix = '\u{20ac}')] pub size: HashSet<L0>, #[speedy(skip)] pub flags: Vec<HashMap<LB, LB>>, #[speedy(constant_prefix = true, default_on_eof)] pub id: L0, #[speedy(constant_prefix = true)] #[speedy(default_on_eof)] pub value: L }
impl Model for S78 {
    fn schema() -> String { struct_schema(&[fieldx(<HashSet<L0> as Model>::schema(), false, false, &[226, 130, 172]), fieldx(<Vec<HashMap<LB, LB>> as Model>::schema(), false, true, &[]), fieldx(<L0 as Model>::schema(), true, false, &[1]), fieldx(<L as Model>::schema(), true, false, &[1])]) }
    fn val(&self, o: &mut String) { o.push('['); self.size.val(o); o.push(','); self.flags.val(o); o.push(','); self.id.val(o); o.push(','); self.value.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let size: HashSet<L0> = <HashSet<L0> as Model>::gen(r); let flags: Vec<HashMap<LB, LB>> = <Vec<HashMap<LB, LB>> as Model>::gen(r); let id: L0 = <L0 as Model>::gen(r); let value: L = <L as Model>::gen(r); S78 { size, flags, id, value } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.size.borrows(f); self.flags.borrows(f); self.id.borrows(f); self.value.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S79(#[speedy(skip)] pub Vec<[LB; 3]>, #[speedy(default_on_eof)] pub Vec<S20>, #[speedy(skip)] pub [L; 3]);
impl Model for S79 {
    fn schema() -> String { struct_schema(&[fieldx(<Vec<[LB; 3]> as Model>::schema(), false, true, &[]), fieldx(<Vec<S20> as Model>::schema(), true, false, &[]), fieldx(<[L; 3] as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<[LB; 3]> = <Vec<[LB; 3]> as Model>::gen(r); let t1: Vec<S20> = <Vec<S20> as Model>::gen(r); let t2: [L; 3] = <[L; 3] as Model>::gen(r); S79(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S80(pub L, #[speedy(default_on_eof)] pub Vec<L>, #[speedy(default_on_eof)] pub LB);
impl Model for S80 {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<Vec<L> as Model>::schema(), true, false, &[]), fieldx(<LB as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: L = <L as Model>::gen(r); let t1: Vec<L> = <Vec<L> as Model>::gen(r); let t2: LB = <LB as Model>::gen(r); S80(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S81<'a>(#[speedy(skip)] pub LB, #[speedy(skip)] pub Cow<'a, HashSet<u16>>, pub Cow<'a, [LB]>, #[speedy(length_type = u64_varint)] pub Vec<Vec<L0>>, #[speedy(default_on_eof)] pub Option<Vec<LB>>);
impl Model for S81<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<LB as Model>::schema(), false, true, &[]), fieldx(<Cow<'static, HashSet<u16>> as Model>::schema(), false, true, &[]), fieldx(<Cow<'static, [LB]> as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<Vec<L0>> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(<Option<Vec<LB>> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: LB = <LB as Model>::gen(r); let t1: Cow<'static, HashSet<u16>> = <Cow<'static, HashSet<u16>> as Model>::gen(r); let t2: Cow<'static, [LB]> = <Cow<'static, [LB]> as Model>::gen(r); let t3: Vec<Vec<L0>> = { gen_upto::<Vec<Vec<L0>>>(r, "varint") }; let t4: Option<Vec<LB>> = <Option<Vec<LB>> as Model>::gen(r); S81(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S82(#[speedy(length_type = u16)] pub BTreeSet<L>, #[speedy(skip)] pub L0, pub HashSet<L>, pub L, pub [L; 2]);
impl Model for S82 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<BTreeSet<L> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(<L0 as Model>::schema(), false, true, &[]), fieldx(<HashSet<L> as Model>::schema(), false, false, &[]), fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<[L; 2] as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: BTreeSet<L> = { gen_upto::<BTreeSet<L>>(r, "u16") }; let t1: L0 = <L0 as Model>::gen(r); let t2: HashSet<L> = <HashSet<L> as Model>::gen(r); let t3: L = <L as Model>::gen(r); let t4: [L; 2] = <[L; 2] as Model>::gen(r); S82(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S83(pub Vec<Option<L0>>, #[speedy(skip)] pub L, pub L, #[speedy(constant_prefix = b"RU")] pub String);
impl Model for S83 {
    fn schema() -> String { struct_schema(&[fieldx(<Vec<Option<L0>> as Model>::schema(), false, false, &[]), fieldx(<L as Model>::schema(), false, true, &[]), fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<String as Model>::schema(), false, false, &[82, 85])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<Option<L0>> = <Vec<Option<L0>> as Model>::gen(r); let t1: L = <L as Model>::gen(r); let t2: L = <L as Model>::gen(r); let t3: String = <String as Model>::gen(r); S83(t0, t1, t2, t3) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S84 { #[speedy(skip)] pub result: (), #[speedy(skip)] pub y: [LB; 5], #[speedy(default_on_eof)] pub count: L, #[speedy(default_on_eof)] pub tag: BTreeSet<L> }
impl Model for S84 {
    fn schema() -> String { struct_schema(&[fieldx(<() as Model>::schema(), false, true, &[]), fieldx(<[LB; 5] as Model>::schema(), false, true, &[]), fieldx(<L as Model>::schema(), true, false, &[]), fieldx(<BTreeSet<L> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.result.val(o); o.push(','); self.y.val(o); o.push(','); self.count.val(o); o.push(','); self.tag.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: () = <() as Model>::gen(r); let y: [LB; 5] = <[LB; 5] as Model>::gen(r); let count: L = <L as Model>::gen(r); let tag: BTreeSet<L> = <BTreeSet<L> as Model>::gen(r); S84 { result, y, count, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.result.borrows(f); self.y.borrows(f); self.count.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S85 { #[speedy(skip)] pub y: HashSet<L>, pub length: L0, pub r#type: L0, #[speedy(constant_prefix = b"\0\xff\0")] pub result: L0, #[speedy(skip)] pub flags: L }
impl Model for S85 {
    fn schema() -> String { struct_schema(&[fieldx(<HashSet<L> as Model>::schema(), false, true, &[]), fieldx(<L0 as Model>::schema(), false, false, &[]), fieldx(<L0 as Model>::schema(), false, false, &[]), fieldx(<L0 as Model>::schema(), false, false, &[0, 255, 0]), fieldx(<L as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.y.val(o); o.push(','); self.length.val(o); o.push(','); self.r#type.val(o); o.push(','); self.result.val(o); o.push(','); self.flags.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: HashSet<L> = <HashSet<L> as Model>::gen(r); let length: L0 = <L0 as Model>::gen(r); let r#type: L0 = <L0 as Model>::gen(r); let result: L0 = <L0 as Model>::gen(r); let flags: L = <L as Model>::gen(r); S85 { y, length, r#type, result, flags } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.y.borrows(f); self.length.borrows(f); self.r#type.borrows(f); self.result.borrows(f); self.flags.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S86 { #[speedy(constant_prefix = '\u{20ac}')] pub result: (String, HashMap<L, LB>, Ipv6Addr,), pub value: Vec<L>, #[speedy(constant_prefix = 'x')] pub len: S82 }
impl Model for S86 {
    fn schema() -> String { struct_schema(&[fieldx(<(String, HashMap<L, LB>, Ipv6Addr,) as Model>::schema(), false, false, &[226, 130, 172]), fieldx(<Vec<L> as Model>::schema(), false, false, &[]), fieldx(<S82 as Model>::schema(), false, false, &[120])]) }
    fn val(&self, o: &mut String) { o.push('['); self.result.val(o); o.push(','); self.value.val(o); o.push(','); self.len.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let result: (String, HashMap<L, LB>, Ipv6Addr,) = <(String, HashMap<L, LB>, Ipv6Addr,) as Model>::gen(r); let value: Vec<L> = <Vec<L> as Model>::gen(r); let len: S82 = <S82 as Model>::gen(r); S86 { result, value, len } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.result.borrows(f); self.value.borrows(f); self.len.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S87 { #[speedy(skip)] pub length: (L, L,), #[speedy(constant_prefix = true)] #[speedy(default_on_eof)] pub rest: (L,), #[speedy(default_on_eof)] pub len: Box<L> }
impl Model for S87 {
    fn schema() -> String { struct_schema(&[fieldx(<(L, L,) as Model>::schema(), false, true, &[]), fieldx(<(L,) as Model>::schema(), true, false, &[1]), fieldx(<Box<L> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.length.val(o); o.push(','); self.rest.val(o); o.push(','); self.len.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: (L, L,) = <(L, L,) as Model>::gen(r); let rest: (L,) = <(L,) as Model>::gen(r); let len: Box<L> = <Box<L> as Model>::gen(r); S87 { length, rest, len } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); self.rest.borrows(f); self.len.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S88 { #[speedy(constant_prefix = '\u{20ac}')] pub tag: Option<BTreeMap<LB, L0>>, pub data: Box<Option<L>>, pub a: L0, pub count: Vec<L0>, pub length: L0 }
impl Model for S88 {
    fn schema() -> String { struct_schema(&[fieldx(<Option<BTreeMap<LB, L0>> as Model>::schema(), false, false, &[226, 130, 172]), fieldx(<Box<Option<L>> as Model>::schema(), false, false, &[]), fieldx(<L0 as Model>::schema(), false, false, &[]), fieldx(<Vec<L0> as Model>::schema(), false, false, &[]), fieldx(<L0 as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.tag.val(o); o.push(','); self.data.val(o); o.push(','); self.a.val(o); o.push(','); self.count.val(o); o.push(','); self.length.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let tag: Option<BTreeMap<LB, L0>> = <Option<BTreeMap<LB, L0>> as Model>::gen(r); let data: Box<Option<L>> = <Box<Option<L>> as Model>::gen(r); let a: L0 = <L0 as Model>::gen(r); let count: Vec<L0> = <Vec<L0> as Model>::gen(r); let length: L0 = <L0 as Model>::gen(r); S88 { tag, data, a, count, length } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.tag.borrows(f); self.data.borrows(f); self.a.borrows(f); self.count.borrows(f); self.length.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S89 { #[speedy(skip)] pub length: LB, #[speedy(skip)] pub kind: Vec<Option<L>> }
impl Model for S89 {
    fn schema() -> String { struct_schema(&[fieldx(<LB as Model>::schema(), false, true, &[]), fieldx(<Vec<Option<L>> as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.length.val(o); o.push(','); self.kind.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let length: LB = <LB as Model>::gen(r); let kind: Vec<Option<L>> = <Vec<Option<L>> as Model>::gen(r); S89 { length, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.length.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S90(#[speedy(length_type = u8)] pub HashMap<LB, (L0,)>, #[speedy(constant_prefix = false)] #[speedy(default_on_eof)] pub Vec<L0>, #[speedy(skip)] pub Option<Option<LB>>);
impl Model for S90 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<HashMap<LB, (L0,)> as Model>::schema(), "{\"l\":\"u8\"}"), false, false, &[]), fieldx(<Vec<L0> as Model>::schema(), true, false, &[0]), fieldx(<Option<Option<LB>> as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: HashMap<LB, (L0,)> = { gen_upto::<HashMap<LB, (L0,)>>(r, "u8") }; let t1: Vec<L0> = <Vec<L0> as Model>::gen(r); let t2: Option<Option<LB>> = <Option<Option<LB>> as Model>::gen(r); S90(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S91 { pub out: LB, #[speedy(skip)] pub key: Option<L>, #[speedy(skip)] pub kind: LB }
impl Model for S91 {
    fn schema() -> String { struct_schema(&[fieldx(<LB as Model>::schema(), false, false, &[]), fieldx(<Option<L> as Model>::schema(), false, true, &[]), fieldx(<LB as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.out.val(o); o.push(','); self.key.val(o); o.push(','); self.kind.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: LB = <LB as Model>::gen(r); let key: Option<L> = <Option<L> as Model>::gen(r); let kind: LB = <LB as Model>::gen(r); S91 { out, key, kind } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.out.borrows(f); self.key.borrows(f); self.kind.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct S92(#[speedy(constant_prefix = b"RU")] pub L, pub String, pub LB);
impl Model for S92 {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[82, 85]), fieldx(<String as Model>::schema(), false, false, &[]), fieldx(<LB as Model>::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: L = <L as Model>::gen(r); let t1: String = <String as Model>::gen(r); let t2: LB = <LB as Model>::gen(r); S92(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S93<'a> { #[speedy(length_type = u32)] pub count: Cow<'a, str>, #[speedy(skip)] pub len: [HashMap<L, L0>; 3], pub key: L0, #[speedy(skip)] pub reader: LB }
impl Model for S93<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, str> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(<[HashMap<L, L0>; 3] as Model>::schema(), false, true, &[]), fieldx(<L0 as Model>::schema(), false, false, &[]), fieldx(<LB as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.count.val(o); o.push(','); self.len.val(o); o.push(','); self.key.val(o); o.push(','); self.reader.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let count: Cow<'static, str> = { gen_upto::<Cow<'static, str>>(r, "u32") }; let len: [HashMap<L, L0>; 3] = <[HashMap<L, L0>; 3] as Model>::gen(r); let key: L0 = <L0 as Model>::gen(r); let reader: LB = <LB as Model>::gen(r); S93 { count, len, key, reader } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.count.borrows(f); self.len.borrows(f); self.key.borrows(f); self.reader.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S94(pub S91, #[speedy(skip)] pub LB, #[speedy(skip)] pub String);
impl Model for S94 {
    fn schema() -> String { struct_schema(&[fieldx(<S91 as Model>::schema(), false, false, &[]), fieldx(<LB as Model>::schema(), false, true, &[]), fieldx(<String as Model>::schema(), false, true, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: S91 = <S91 as Model>::gen(r); let t1: LB = <LB as Model>::gen(r); let t2: String = <String as Model>::gen(r); S94(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S95 { #[speedy(length_type = u64)] pub bytes: String, pub t1: L, #[speedy(length = ..)] pub rest: HashSet<L> }
impl Model for S95 {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[]), fieldx(<L as Model>::schema(), false, false, &[]), fieldx(with_lt(<HashSet<L> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.bytes.val(o); o.push(','); self.t1.val(o); o.push(','); self.rest.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let bytes: String = { gen_upto::<String>(r, "u64") }; let t1: L = <L as Model>::gen(r); let rest: HashSet<L> = <HashSet<L> as Model>::gen(r); S95 { bytes, t1, rest } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.bytes.borrows(f); self.t1.borrows(f); self.rest.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S96<'a>(#[speedy(constant_prefix = b"RU", length_type = u64)] pub Vec<S94>, #[speedy(constant_prefix = 'x')] #[speedy(length_type = u64_varint)] pub HashMap<LB, Cow<'a, BTreeMap<u8, u32>>>, #[speedy(length_type = u64_varint)] pub Vec<u32>, #[speedy(varint)] pub u64, #[speedy(length = ..)] pub BTreeMap<L, L>);
impl Model for S96<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Vec<S94> as Model>::schema(), "{\"l\":\"u64\"}"), false, false, &[82, 85]), fieldx(with_lt(<HashMap<LB, Cow<'static, BTreeMap<u8, u32>>> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[120]), fieldx(with_lt(<Vec<u32> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(varint_schema(), false, false, &[]), fieldx(with_lt(<BTreeMap<L, L> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: Vec<S94> = { gen_upto::<Vec<S94>>(r, "u64") }; let t1: HashMap<LB, Cow<'static, BTreeMap<u8, u32>>> = { gen_upto::<HashMap<LB, Cow<'static, BTreeMap<u8, u32>>>>(r, "varint") }; let t2: Vec<u32> = { gen_upto::<Vec<u32>>(r, "varint") }; let t3: u64 = <u64 as Model>::gen(r); let t4: BTreeMap<L, L> = <BTreeMap<L, L> as Model>::gen(r); S96(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S97<'a> { #[speedy(length_type = u64_varint)] pub rest: Cow<'a, BTreeMap<u16, L>>, #[speedy(constant_prefix = -3i8, length_type = u64_varint)] pub length: Cow<'a, HashSet<u32>>, #[speedy(length_type = u64_varint)] pub tag: &'a [u8] }
impl Model for S97<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<Cow<'static, BTreeMap<u16, L>> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, HashSet<u32>> as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[253]), fieldx(with_lt(<&'static [u8] as Model>::schema(), "{\"l\":\"varint\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.rest.val(o); o.push(','); self.length.val(o); o.push(','); self.tag.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let rest: Cow<'static, BTreeMap<u16, L>> = { gen_upto::<Cow<'static, BTreeMap<u16, L>>>(r, "varint") }; let length: Cow<'static, HashSet<u32>> = { gen_upto::<Cow<'static, HashSet<u32>>>(r, "varint") }; let tag: &'static [u8] = { gen_upto::<&'static [u8]>(r, "varint") }; S97 { rest, length, tag } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.rest.borrows(f); self.length.borrows(f); self.tag.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S98<'a>(#[speedy(varint)] pub u64, #[speedy(length_type = u32)] pub HashSet<L>, #[speedy(length_type = u7)] pub Cow<'a, [L0]>, pub u8, #[speedy(default_on_eof)] pub L0);
impl Model for S98<'static> {
    fn schema() -> String { struct_schema(&[fieldx(varint_schema(), false, false, &[]), fieldx(with_lt(<HashSet<L> as Model>::schema(), "{\"l\":\"u32\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, [L0]> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(<L0 as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(','); self.3.val(o); o.push(','); self.4.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: u64 = <u64 as Model>::gen(r); let t1: HashSet<L> = { gen_upto::<HashSet<L>>(r, "u32") }; let t2: Cow<'static, [L0]> = { gen_upto::<Cow<'static, [L0]>>(r, "u7") }; let t3: u8 = (r.below(24) as u8); let t4: L0 = <L0 as Model>::gen(r); S98(t0, t1, t2, t3, t4) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); self.3.borrows(f); self.4.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S99<'a>(#[speedy(length_type = u7)] pub HashSet<LB>, #[speedy(length_type = u7)] pub BTreeSet<L>, #[speedy(length = ..)] pub Cow<'a, [L]>);
impl Model for S99<'static> {
    fn schema() -> String { struct_schema(&[fieldx(with_lt(<HashSet<LB> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(with_lt(<BTreeSet<L> as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), fieldx(with_lt(<Cow<'static, [L]> as Model>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(','); self.1.val(o); o.push(','); self.2.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: HashSet<LB> = { gen_upto::<HashSet<LB>>(r, "u7") }; let t1: BTreeSet<L> = { gen_upto::<BTreeSet<L>>(r, "u7") }; let t2: Cow<'static, [L]> = <Cow<'static, [L]> as Model>::gen(r); S99(t0, t1, t2) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); self.2.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct S100 { pub name: L0, #[speedy(length_type = u16)] pub kind: Vec<IpAddr>, #[speedy(length_type = u7, constant_prefix = "")] pub len: String }
impl Model for S100 {
    fn schema() -> String { struct_schema(&[fieldx(<L0 as Model>::schema(), false, false, &[]), fieldx(with_lt(<Vec<IpAddr> as Model>::schema(), "{\"l\":\"u16\"}"), false, false, &[]), fieldx(with_lt(<String as Model>::schema(), "{\"l\":\"u7\"}"), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.name.val(o); o.push(','); self.kind.val(o); o.push(','); self.len.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let name: L0 = <L0 as Model>::gen(r); let kind: Vec<IpAddr> = { gen_upto::<Vec<IpAddr>>(r, "u16") }; let len: String = { gen_upto::<String>(r, "u7") }; S100 { name, kind, len } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.name.borrows(f); self.kind.borrows(f); self.len.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u7)] pub enum E101 { #[speedy(tag = 126)] V0([L; 2]), V1(#[speedy(constant_prefix = "")] LB, #[speedy(constant_prefix = true)] Option<L0>), #[speedy(tag = 36)] V2 { id: LB }, V3(#[speedy(constant_prefix = false, default_on_eof)] L0) }
impl Model for E101 {
    fn schema() -> String { enum_schema("u7", false, &[(126, vec![fieldx(<[L; 2] as Model>::schema(), false, false, &[])]), (127, vec![fieldx(<LB as Model>::schema(), false, false, &[]), fieldx(<Option<L0> as Model>::schema(), false, false, &[1])]), (36, vec![fieldx(<LB as Model>::schema(), false, false, &[])]), (37, vec![fieldx(<L0 as Model>::schema(), true, false, &[0])])]) }
    fn val(&self, o: &mut String) { match self { E101::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E101::V1(f_0, f_1) => { o.push_str("[2,["); f_0.val(o); o.push(','); f_1.val(o); o.push_str("]]"); } E101::V2 { id: f_0 } => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } E101::V3(f_0) => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let t0: [L; 2] = <[L; 2] as Model>::gen(r); E101::V0(t0) } 1 => { let t0: LB = <LB as Model>::gen(r); let t1: Option<L0> = <Option<L0> as Model>::gen(r); E101::V1(t0, t1) } 2 => { let id: LB = <LB as Model>::gen(r); E101::V2 { id } } 3 => { let t0: L0 = <L0 as Model>::gen(r); E101::V3(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E101::V0(f_0) => { f_0.borrows(f); } E101::V1(f_0, f_1) => { f_0.borrows(f); f_1.borrows(f); } E101::V2 { id: f_0 } => { f_0.borrows(f); } E101::V3(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E102 { #[speedy(tag = 157)] V0 { #[speedy(default_on_eof)] x: String }, #[speedy(tag = 253)] V1, #[speedy(tag = 229)] V2(#[speedy(constant_prefix = 'x')] L0) }
impl Model for E102 {
    fn schema() -> String { enum_schema("u8", false, &[(157, vec![fieldx(<String as Model>::schema(), true, false, &[])]), (253, vec![]), (229, vec![fieldx(<L0 as Model>::schema(), false, false, &[120])])]) }
    fn val(&self, o: &mut String) { match self { E102::V0 { x: f_0 } => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E102::V1 => { o.push_str("[2,[");  o.push_str("]]"); } E102::V2(f_0) => { o.push_str("[3,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => { let x: String = <String as Model>::gen(r); E102::V0 { x } } 1 => {  E102::V1 } 2 => { let t0: L0 = <L0 as Model>::gen(r); E102::V2(t0) } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E102::V0 { x: f_0 } => { f_0.borrows(f); } E102::V1 => {  } E102::V2(f_0) => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum E103 { V0 { #[speedy(default_on_eof)] len: Vec<Option<L>> } }
impl Model for E103 {
    fn schema() -> String { enum_schema("u8", false, &[(0, vec![fieldx(<Vec<Option<L>> as Model>::schema(), true, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E103::V0 { len: f_0 } => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(1) { 0 => { let len: Vec<Option<L>> = <Vec<Option<L>> as Model>::gen(r); E103::V0 { len } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E103::V0 { len: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u64_varint)] pub enum E104 { #[speedy(tag = 18446744073709551613)] V0(#[speedy(constant_prefix = -3i8)] L0), #[speedy(tag = 4)] V1(#[speedy(constant_prefix = true)] L), V2(#[speedy(constant_prefix = "ab\u{e9}")] Vec<LB>, #[speedy(constant_prefix = b"\0\xff\0")] (LB, Box<L>,), #[speedy(constant_prefix = -128i8)] NonZeroU8), V3 { count: NonZeroI16 } }
impl Model for E104 {
    fn schema() -> String { enum_schema("varint", false, &[(18446744073709551613, vec![fieldx(<L0 as Model>::schema(), false, false, &[253])]), (4, vec![fieldx(<L as Model>::schema(), false, false, &[1])]), (5, vec![fieldx(<Vec<LB> as Model>::schema(), false, false, &[97, 98, 195, 169]), fieldx(<(LB, Box<L>,) as Model>::schema(), false, false, &[0, 255, 0]), fieldx(<NonZeroU8 as Model>::schema(), false, false, &[128])]), (6, vec![fieldx(<NonZeroI16 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { E104::V0(f_0) => { o.push_str("[1,["); f_0.val(o); o.push_str("]]"); } E104::V1(f_0) => { o.push_str("[2,["); f_0.val(o); o.push_str("]]"); } E104::V2(f_0, f_1, f_2) => { o.push_str("[3,["); f_0.val(o); o.push(','); f_1.val(o); o.push(','); f_2.val(o); o.push_str("]]"); } E104::V3 { count: f_0 } => { o.push_str("[4,["); f_0.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(4) { 0 => { let t0: L0 = <L0 as Model>::gen(r); E104::V0(t0) } 1 => { let t0: L = <L as Model>::gen(r); E104::V1(t0) } 2 => { let t0: Vec<LB> = <Vec<LB> as Model>::gen(r); let t1: (LB, Box<L>,) = <(LB, Box<L>,) as Model>::gen(r); let t2: NonZeroU8 = <NonZeroU8 as Model>::gen(r); E104::V2(t0, t1, t2) } 3 => { let count: NonZeroI16 = <NonZeroI16 as Model>::gen(r); E104::V3 { count } } _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { E104::V0(f_0) => { f_0.borrows(f); } E104::V1(f_0) => { f_0.borrows(f); } E104::V2(f_0, f_1, f_2) => { f_0.borrows(f); f_1.borrows(f); f_2.borrows(f); } E104::V3 { count: f_0 } => { f_0.borrows(f); } } let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D105(pub L, #[speedy(default_on_eof)] pub Vec<L>);
impl Model for D105 {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<Vec<L> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: L = <L as Model>::gen(r); let t1: Vec<L> = <Vec<L> as Model>::gen(r); D105(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D106 { pub out: L, #[speedy(default_on_eof)] pub t1: Option<L> }
impl Model for D106 {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<Option<L> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.out).val(o); o.push(','); (self.t1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let out: L = <L as Model>::gen(r); let t1: Option<L> = <Option<L> as Model>::gen(r); D106 { out, t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.out.borrows(f); self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D107 { pub kind: L, #[speedy(default_on_eof)] pub length: Option<Vec<L0>> }
impl Model for D107 {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<Option<Vec<L0>> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.kind).val(o); o.push(','); (self.length).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let kind: L = <L as Model>::gen(r); let length: Option<Vec<L0>> = <Option<Vec<L0>> as Model>::gen(r); D107 { kind, length } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.kind.borrows(f); self.length.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D108 { pub len: L, #[speedy(default_on_eof)] pub t1: BTreeMap<L, LB> }
impl Model for D108 {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<BTreeMap<L, LB> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.len).val(o); o.push(','); (self.t1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let len: L = <L as Model>::gen(r); let t1: BTreeMap<L, LB> = <BTreeMap<L, LB> as Model>::gen(r); D108 { len, t1 } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.len.borrows(f); self.t1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D109(pub L, #[speedy(default_on_eof)] pub HashSet<L>);
impl Model for D109 {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<HashSet<L> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: L = <L as Model>::gen(r); let t1: HashSet<L> = <HashSet<L> as Model>::gen(r); D109(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D110(pub L, #[speedy(default_on_eof)] pub [L; 3]);
impl Model for D110 {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<[L; 3] as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: L = <L as Model>::gen(r); let t1: [L; 3] = <[L; 3] as Model>::gen(r); D110(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D111 { pub y: L, #[speedy(default_on_eof)] pub flags: (L, LB,) }
impl Model for D111 {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<(L, LB,) as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.y).val(o); o.push(','); (self.flags).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let y: L = <L as Model>::gen(r); let flags: (L, LB,) = <(L, LB,) as Model>::gen(r); D111 { y, flags } }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.y.borrows(f); self.flags.borrows(f); let _ = f; }
}
#[derive(Clone, Readable, Writable)] pub struct D112<'a>(pub L, #[speedy(default_on_eof)] pub Cow<'a, [LB]>);
impl Model for D112<'static> {
    fn schema() -> String { struct_schema(&[fieldx(<L as Model>::schema(), false, false, &[]), fieldx(<Cow<'static, [LB]> as Model>::schema(), true, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); (self.0).val(o); o.push(','); (self.1).val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { let t0: L = <L as Model>::gen(r); let t1: Cow<'static, [LB]> = <Cow<'static, [LB]> as Model>::gen(r); D112(t0, t1) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f); self.1.borrows(f); let _ = f; }
}
pub fn register(v: &mut Vec<TypeOps>) {
    reg!(v, "life"; S1);
    reg!(v, "life"; BTreeMap<L, S1>);
    reg!(v, "life"; Vec<S1>);
    reg!(v, "life"; S2);
    reg!(v, "life"; Vec<S2>);
    reg!(v, "life"; [S2; 2]);
    reg!(v, "life"; S3);
    reg!(v, "life"; (u8, S3, L));
    reg!(v, "life"; BTreeMap<L, S3>);
    reg!(v, "life"; S4);
    reg!(v, "life"; (u8, S4, L));
    reg!(v, "life"; BTreeMap<L, S4>);
    reg!(v, "life"; S5<'static>);
    reg!(v, "life"; (u8, S5<'static>, L));
    reg!(v, "life"; Box<[S5<'static>]>);
    reg!(v, "life"; S6);
    reg!(v, "life"; BTreeMap<L, S6>);
    reg!(v, "life"; Box<[S6]>);
    reg!(v, "life"; S7);
    reg!(v, "life"; Option<S7>);
    reg!(v, "life"; [S7; 2]);
    reg!(v, "life"; S8);
    reg!(v, "life"; Vec<S8>);
    reg!(v, "life"; BTreeMap<L, S8>);
    reg!(v, "life"; S9);
    reg!(v, "life"; Vec<S9>);
    reg!(v, "life"; BTreeMap<L, S9>);
    reg!(v, "life"; S10);
    reg!(v, "life"; [S10; 2]);
    reg!(v, "life"; Option<S10>);
    reg!(v, "life"; S11);
    reg!(v, "life"; (u8, S11, L));
    reg!(v, "life"; Vec<S11>);
    reg!(v, "life"; S12);
    reg!(v, "life"; BTreeMap<L, S12>);
    reg!(v, "life"; (u8, S12, L));
    reg!(v, "life"; S13);
    reg!(v, "life"; BTreeMap<L, S13>);
    reg!(v, "life"; (u8, S13, L));
    reg!(v, "life"; S14);
    reg!(v, "life"; Box<[S14]>);
    reg!(v, "life"; Option<S14>);
    reg!(v, "life"; S15);
    reg!(v, "life"; BTreeMap<L, S15>);
    reg!(v, "life"; Option<S15>);
    reg!(v, "life"; S16);
    reg!(v, "life"; Option<S16>);
    reg!(v, "life"; Box<[S16]>);
    reg!(v, "life"; S17<'static>);
    reg!(v, "life"; [S17<'static>; 2]);
    reg!(v, "life"; Option<S17<'static>>);
    reg!(v, "life"; S18);
    reg!(v, "life"; [S18; 2]);
    reg!(v, "life"; BTreeMap<L, S18>);
    reg!(v, "life"; S19);
    reg!(v, "life"; Vec<S19>);
    reg!(v, "life"; Box<[S19]>);
    reg!(v, "life"; S20);
    reg!(v, "life"; (u8, S20, L));
    reg!(v, "life"; [S20; 2]);
    reg!(v, "life"; S21);
    reg!(v, "life"; [S21; 2]);
    reg!(v, "life"; BTreeMap<L, S21>);
    reg!(v, "life"; S22);
    reg!(v, "life"; Vec<S22>);
    reg!(v, "life"; (u8, S22, L));
    reg!(v, "life"; S23<'static>);
    reg!(v, "life"; BTreeMap<L, S23<'static>>);
    reg!(v, "life"; Vec<S23<'static>>);
    reg!(v, "life"; S24);
    reg!(v, "life"; Vec<S24>);
    reg!(v, "life"; Option<S24>);
    reg!(v, "life"; S25);
    reg!(v, "life"; BTreeMap<L, S25>);
    reg!(v, "life"; Box<[S25]>);
    reg!(v, "life"; S26);
    reg!(v, "life"; (u8, S26, L));
    reg!(v, "life"; Vec<S26>);
    reg!(v, "life"; S27);
    reg!(v, "life"; Vec<S27>);
    reg!(v, "life"; [S27; 2]);
    reg!(v, "life"; S28);
    reg!(v, "life"; Option<S28>);
    reg!(v, "life"; BTreeMap<L, S28>);
    reg!(v, "life"; S29);
    reg!(v, "life"; (u8, S29, L));
    reg!(v, "life"; Vec<S29>);
    reg!(v, "life"; S30);
    reg!(v, "life"; Box<[S30]>);
    reg!(v, "life"; (u8, S30, L));
    reg!(v, "life"; E31<'static>);
    reg!(v, "life"; [E31<'static>; 3]);
    reg!(v, "life"; E32<'static>);
    reg!(v, "life"; (u8, E32<'static>, L));
    reg!(v, "life"; E33);
    reg!(v, "life"; (u8, E33, L));
    reg!(v, "life"; E34);
    reg!(v, "life"; Vec<E34>);
    reg!(v, "life"; E35);
    reg!(v, "life"; Vec<E35>);
    reg!(v, "life"; E36);
    reg!(v, "life"; [E36; 3]);
    reg!(v, "life"; E37);
    reg!(v, "life"; [E37; 3]);
    reg!(v, "life"; E38);
    reg!(v, "life"; Vec<E38>);
    reg!(v, "life"; E39);
    reg!(v, "life"; (u8, E39, L));
    reg!(v, "life"; E40);
    reg!(v, "life"; [E40; 3]);
    reg!(v, "life"; E41);
    reg!(v, "life"; Vec<E41>);
    reg!(v, "life"; E42);
    reg!(v, "life"; [E42; 3]);
    reg!(v, "life"; E43);
    reg!(v, "life"; Vec<E43>);
    reg!(v, "life"; E44);
    reg!(v, "life"; [E44; 3]);
    reg!(v, "life"; S45<'static>);
    reg!(v, "life"; S46<'static>);
    reg!(v, "life"; S47<'static>);
    reg!(v, "life open"; S48<'static>);
    reg!(v, "life"; S49<'static>);
    reg!(v, "life"; S50);
    reg!(v, "life dref"; S51<'static>);
    reg!(v, "life"; S52<'static>);
    reg!(v, "life"; S53);
    reg!(v, "life"; S54<'static>);
    reg!(v, "life"; S55<'static>);
    reg!(v, "life"; S56);
    reg!(v, "life open"; S57<'static>);
    reg!(v, "life open"; S58<'static>);
    reg!(v, "life"; S59<'static>);
    reg!(v, "life"; S60<'static>);
    reg!(v, "life"; S61<'static>);
    reg!(v, "life"; S62<'static>);
    reg!(v, "life"; S63);
    reg!(v, "life"; S64);
    reg!(v, "life"; S65<'static>);
    reg!(v, "life open"; S66);
    reg!(v, "life open"; S67<'static>);
    reg!(v, "life open"; S68<'static>);
    reg!(v, "life open"; S69<'static>);
    reg!(v, "life"; S70);
    reg!(v, "life"; S71<'static>);
    reg!(v, "life"; S72);
    reg!(v, "life"; S73<'static>);
    reg!(v, "life"; S74);
    reg!(v, "life"; S75);
    reg!(v, "life open"; S76<'static>);
    reg!(v, "life"; S77<'static>);
    reg!(v, "life open"; S78);
    reg!(v, "life open"; S79);
    reg!(v, "life open"; S80);
    reg!(v, "life open"; S81<'static>);
    reg!(v, "life"; S82);
    reg!(v, "life"; S83);
    reg!(v, "life open"; S84);
    reg!(v, "life"; S85);
    reg!(v, "life"; S86);
    reg!(v, "life open"; S87);
    reg!(v, "life"; S88);
    reg!(v, "life"; S89);
    reg!(v, "life open"; S90);
    reg!(v, "life"; S91);
    reg!(v, "life"; S92);
    reg!(v, "life"; S93<'static>);
    reg!(v, "life"; S94);
    reg!(v, "life open"; S95);
    reg!(v, "life open"; S96<'static>);
    reg!(v, "life dref"; S97<'static>);
    reg!(v, "life open"; S98<'static>);
    reg!(v, "life open"; S99<'static>);
    reg!(v, "life"; S100);
    reg!(v, "life open"; E101);
    reg!(v, "life open"; E102);
    reg!(v, "life open"; E103);
    reg!(v, "life"; E104);
    reg!(v, "life open"; D105);
    reg!(v, "life open"; D106);
    reg!(v, "life open"; D107);
    reg!(v, "life open"; D108);
    reg!(v, "life open"; D109);
    reg!(v, "life open"; D110);
    reg!(v, "life open"; D111);
    reg!(v, "life open"; D112<'static>);
}
