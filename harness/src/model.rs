//! The bridge between Rust types and the schemas and values of the specification.
use crate::util::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write;

pub trait Model: Sized {
    /// The schema of the type, as JSON.
    fn schema() -> String;
    /// The value, as JSON, in the specification's representation.
    fn val(&self, o: &mut String);
    fn gen(r: &mut Rng) -> Self;
    /// Reports all borrowed memory: address, bytes, alignment of the element, whether the data
    /// could have been owned instead.
    fn borrows(&self, _f: &mut dyn FnMut(Borrow)) {}
    /// Width of plain integers, whose runs are represented as flat byte strings.
    const FLAT: Option<usize> = None;
    fn flat(&self, _o: &mut Vec<u8>) {}
}
pub struct Borrow {
    pub ptr: usize,
    pub bytes: usize,
    pub align: usize,
    pub size: usize,
    /// 0: a plain reference, 1: Cow::Borrowed, 2: Cow::Owned
    pub kind: u8,
    pub prim: bool,
    pub conv: bool,
}

thread_local! {
    static DEPTH: std::cell::Cell<u32> = std::cell::Cell::new(0);
}
/// Limits the size of generated values and the unrolling of recursive schemas.
pub fn deeper<R>(f: impl FnOnce(u32) -> R) -> R {
    struct Up;
    impl Drop for Up {
        fn drop(&mut self) {
            DEPTH.with(|c| c.set(c.get() - 1));
        }
    }
    let d = DEPTH.with(|c| {
        let d = c.get();
        c.set(d + 1);
        d
    });
    let _up = Up;
    f(d)
}
thread_local! {
    /// the number of elements the next collection is to have
    pub static LIM: std::cell::Cell<Option<usize>> = std::cell::Cell::new(None);
}
pub fn lim() -> Option<usize> { LIM.with(|l| l.take()) }
pub fn glen(r: &mut Rng, d: u32) -> usize {
    r.len(if d == 0 { 12 } else if d == 1 { 5 } else { 2 })
}

macro_rules! ints {
    ($($t:ty, $w:expr, $sg:expr;)+) => {$(
        impl Model for $t {
            fn schema() -> String { format!("{{\"k\":\"int\",\"w\":{}{}}}", $w, if $sg { ",\"sg\":1" } else { "" }) }
            fn val(&self, o: &mut String) { jbytes(o, &self.to_le_bytes()); }
            fn gen(r: &mut Rng) -> Self { r.int() as $t }
            const FLAT: Option<usize> = Some($w);
            fn flat(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_le_bytes()); }
        }
    )+}
}
ints! { u8, 1, false; u16, 2, false; u32, 4, false; u64, 8, false; u128, 16, false; usize, 8, false;
        i8, 1, true; i16, 2, true; i32, 4, true; i64, 8, true; i128, 16, true; }
impl Model for f32 {
    fn schema() -> String { "{\"k\":\"int\",\"w\":4}".into() }
    fn val(&self, o: &mut String) { jbytes(o, &self.to_bits().to_le_bytes()); }
    fn gen(r: &mut Rng) -> Self { f32::from_bits(r.int() as u32) }
    const FLAT: Option<usize> = Some(4);
    fn flat(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_bits().to_le_bytes()); }
}
impl Model for f64 {
    fn schema() -> String { "{\"k\":\"int\",\"w\":8}".into() }
    fn val(&self, o: &mut String) { jbytes(o, &self.to_bits().to_le_bytes()); }
    fn gen(r: &mut Rng) -> Self { f64::from_bits(r.int() as u64) }
    const FLAT: Option<usize> = Some(8);
    fn flat(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_bits().to_le_bytes()); }
}
macro_rules! atomics {
    ($($a:ident, $t:ty;)+) => {$(
        impl Model for std::sync::atomic::$a {
            fn schema() -> String { <$t>::schema() }
            fn val(&self, o: &mut String) { self.load(std::sync::atomic::Ordering::SeqCst).val(o) }
            fn gen(r: &mut Rng) -> Self { Self::new(<$t>::gen(r)) }
            const FLAT: Option<usize> = <$t>::FLAT;
            fn flat(&self, o: &mut Vec<u8>) { self.load(std::sync::atomic::Ordering::SeqCst).flat(o) }
        }
    )+}
}
atomics! { AtomicU8, u8; AtomicU16, u16; AtomicU32, u32; AtomicU64, u64;
           AtomicI8, i8; AtomicI16, i16; AtomicI32, i32; AtomicI64, i64; }
macro_rules! nonzero {
    ($($a:ident, $t:ty, $w:expr, $sg:expr;)+) => {$(
        impl Model for std::num::$a {
            fn schema() -> String { format!("{{\"k\":\"nz\",\"w\":{}{}}}", $w, if $sg { ",\"sg\":1" } else { "" }) }
            fn val(&self, o: &mut String) { self.get().val(o) }
            fn gen(r: &mut Rng) -> Self { Self::new(<$t>::gen(r)).unwrap_or(Self::new(1).unwrap()) }
        }
    )+}
}
nonzero! { NonZeroU8, u8, 1, false; NonZeroU16, u16, 2, false; NonZeroU32, u32, 4, false; NonZeroU64, u64, 8, false;
           NonZeroI8, i8, 1, true; NonZeroI16, i16, 2, true; NonZeroI32, i32, 4, true; NonZeroI64, i64, 8, true; }

impl Model for bool {
    fn schema() -> String { "{\"k\":\"bool\"}".into() }
    fn val(&self, o: &mut String) { o.push(if *self { '1' } else { '0' }) }
    fn gen(r: &mut Rng) -> Self { r.chance(1, 2) }
}
impl Model for char {
    fn schema() -> String { "{\"k\":\"char\"}".into() }
    fn val(&self, o: &mut String) { jbytes(o, &(*self as u32).to_le_bytes()) }
    fn gen(r: &mut Rng) -> Self {
        match r.below(6) {
            0 => '\0',
            1 => *r.pick(&['\u{d7ff}', '\u{e000}', '\u{10ffff}', '\u{ffff}', '\u{10000}']),
            2 => (b'a' + r.below(26) as u8) as char,
            _ => char::from_u32(r.next() as u32 % 0x110000).unwrap_or('x'),
        }
    }
}
impl Model for () {
    fn schema() -> String { "{\"k\":\"unit\"}".into() }
    fn val(&self, o: &mut String) { o.push_str("[]") }
    fn gen(_: &mut Rng) -> Self {}
}

pub fn gen_string(r: &mut Rng) -> String {
    if let Some(n) = lim() { return gen_string_n(r, n) }
    let n = if r.chance(1, 40) { 200 } else { deeper(|d| glen(r, d)) };
    (0..n).map(|_| if r.chance(2, 3) { (b'a' + r.below(26) as u8) as char } else { char::gen(r) }).collect()
}
pub fn u32l() -> String { "{\"l\":\"u32\"}".into() }
pub fn str_schema() -> String { format!("{{\"k\":\"str\",\"lt\":{}}}", u32l()) }
pub fn str_val(s: &str, o: &mut String) { jbytes(o, s.as_bytes()) }
impl Model for String {
    fn schema() -> String { str_schema() }
    fn val(&self, o: &mut String) { str_val(self, o) }
    fn gen(r: &mut Rng) -> Self { gen_string(r) }
}
impl Model for Box<str> {
    fn schema() -> String { str_schema() }
    fn val(&self, o: &mut String) { str_val(self, o) }
    fn gen(r: &mut Rng) -> Self { gen_string(r).into() }
}
impl Model for Cow<'static, str> {
    fn schema() -> String { str_schema() }
    fn val(&self, o: &mut String) { str_val(self, o) }
    fn gen(r: &mut Rng) -> Self { Cow::Owned(gen_string(r)) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {
        f(Borrow { ptr: self.as_ptr() as usize, bytes: self.len(), align: 1, size: 1,
                   kind: if let Cow::Borrowed(_) = self { 1 } else { 2 }, prim: true, conv: false });
    }
}
pub fn leak<T: ?Sized>(b: Box<T>) -> &'static T { Box::leak(b) }
impl Model for &'static str {
    fn schema() -> String { "{\"k\":\"rstr\",\"lt\":{\"l\":\"u32\"}}".into() }
    fn val(&self, o: &mut String) { str_val(self, o) }
    fn gen(r: &mut Rng) -> Self { leak(gen_string(r).into_boxed_str()) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {
        f(Borrow { ptr: self.as_ptr() as usize, bytes: self.len(), align: 1, size: 1, kind: 0, prim: true, conv: false });
    }
}

// ---------------------------------------------------------------- runs of elements
pub fn run_val<T: Model>(xs: &[T], o: &mut String) {
    if T::FLAT.is_some() {
        let mut b = Vec::new();
        for x in xs {
            x.flat(&mut b);
        }
        jbytes(o, &b);
    } else {
        list_val(xs.iter(), o);
    }
}
pub fn list_val<'a, T: Model + 'a>(xs: impl Iterator<Item = &'a T>, o: &mut String) {
    o.push('[');
    for (i, x) in xs.enumerate() {
        if i > 0 {
            o.push(',');
        }
        x.val(o);
    }
    o.push(']');
}
pub fn map_val<'a, K: Model + 'a, V: Model + 'a>(xs: impl Iterator<Item = (&'a K, &'a V)>, o: &mut String) {
    o.push('[');
    for (i, (k, v)) in xs.enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push('[');
        k.val(o);
        o.push(',');
        v.val(o);
        o.push(']');
    }
    o.push(']');
}
pub fn gen_vec<T: Model>(r: &mut Rng) -> Vec<T> {
    let l = lim();
    deeper(|d| {
        let n = if let Some(n) = l { n } else if d == 0 && r.chance(1, 12) { match r.below(4) { 0 => if T::FLAT.is_some() { 100 + r.below(200) } else { 40 }, _ => 13 + r.below(24) } } else { glen(r, d) };
        (0..n).map(|_| T::gen(r)).collect()
    })
}
pub fn seq_schema<T: Model>() -> String { format!("{{\"k\":\"seq\",\"lt\":{},\"t\":{}}}", u32l(), T::schema()) }
impl<T: Model> Model for Vec<T> {
    fn schema() -> String { seq_schema::<T>() }
    fn val(&self, o: &mut String) { run_val(self, o) }
    fn gen(r: &mut Rng) -> Self { gen_vec(r) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { for x in self { x.borrows(f) } }
}
impl<T: Model> Model for Box<[T]> {
    fn schema() -> String { seq_schema::<T>() }
    fn val(&self, o: &mut String) { run_val(self, o) }
    fn gen(r: &mut Rng) -> Self { gen_vec(r).into() }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { for x in self.iter() { x.borrows(f) } }
}
/// Is T plain data, such that slices of it can be borrowed from the input?
pub fn is_prim<T: 'static>() -> bool {
    use std::any::TypeId;
    let t = TypeId::of::<T>();
    [TypeId::of::<u8>(), TypeId::of::<i8>(), TypeId::of::<u16>(), TypeId::of::<i16>(), TypeId::of::<u32>(),
     TypeId::of::<i32>(), TypeId::of::<u64>(), TypeId::of::<i64>(), TypeId::of::<u128>(), TypeId::of::<i128>(),
     TypeId::of::<f32>(), TypeId::of::<f64>()].contains(&t)
}
impl<T: Model + Clone + 'static> Model for Cow<'static, [T]> {
    fn schema() -> String { seq_schema::<T>() }
    fn val(&self, o: &mut String) { run_val(self, o) }
    fn gen(r: &mut Rng) -> Self { Cow::Owned(gen_vec(r)) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {
        f(Borrow { ptr: self.as_ptr() as usize, bytes: std::mem::size_of_val(&**self), align: std::mem::align_of::<T>(),
                   size: std::mem::size_of::<T>(), kind: if let Cow::Borrowed(_) = self { 1 } else { 2 },
                   prim: is_prim::<T>(), conv: std::mem::size_of::<T>() != 1 });
        if let Cow::Owned(v) = self { for x in v { x.borrows(f) } }
    }
}
pub fn lay<T>() -> String { format!("\"sz\":{},\"al\":{}", std::mem::size_of::<T>(), std::mem::align_of::<T>()) }
impl<T: Model + 'static> Model for &'static [T] {
    fn schema() -> String { format!("{{\"k\":\"rseq\",\"lt\":{},\"t\":{},{}}}", u32l(), T::schema(), lay::<T>()) }
    fn val(&self, o: &mut String) { run_val(self, o) }
    fn gen(r: &mut Rng) -> Self { leak(gen_vec(r).into_boxed_slice()) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {
        f(Borrow { ptr: self.as_ptr() as usize, bytes: std::mem::size_of_val(*self), align: std::mem::align_of::<T>(),
                   size: std::mem::size_of::<T>(), kind: 0, prim: true, conv: std::mem::size_of::<T>() != 1 });
    }
}
impl<T: Model + 'static, const N: usize> Model for &'static [T; N] {
    fn schema() -> String { format!("{{\"k\":\"rarr\",\"n\":{},\"t\":{},{}}}", N, T::schema(), lay::<T>()) }
    fn val(&self, o: &mut String) { run_val(&self[..], o) }
    fn gen(r: &mut Rng) -> Self { leak(Box::new(std::array::from_fn(|_| T::gen(r)))) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) {
        f(Borrow { ptr: self.as_ptr() as usize, bytes: std::mem::size_of_val(*self), align: std::mem::align_of::<T>(),
                   size: std::mem::size_of::<T>(), kind: 0, prim: true, conv: std::mem::size_of::<T>() != 1 });
    }
}
impl<T: Model, const N: usize> Model for [T; N] {
    fn schema() -> String { format!("{{\"k\":\"arr\",\"n\":{},\"t\":{}}}", N, T::schema()) }
    fn val(&self, o: &mut String) { run_val(&self[..], o) }
    fn gen(r: &mut Rng) -> Self { deeper(|_| std::array::from_fn(|_| T::gen(r))) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { for x in self { x.borrows(f) } }
}
impl<T: Model> Model for Box<T> {
    fn schema() -> String { T::schema() }
    fn val(&self, o: &mut String) { (**self).val(o) }
    fn gen(r: &mut Rng) -> Self { Box::new(T::gen(r)) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { (**self).borrows(f) }
    const FLAT: Option<usize> = T::FLAT;
    fn flat(&self, o: &mut Vec<u8>) { (**self).flat(o) }
}
impl<T: Model> Model for Option<T> {
    fn schema() -> String { format!("{{\"k\":\"opt\",\"t\":{}}}", T::schema()) }
    fn val(&self, o: &mut String) { o.push('['); if let Some(x) = self { x.val(o) } o.push(']') }
    fn gen(r: &mut Rng) -> Self { if r.chance(1, 3) { None } else { Some(deeper(|_| T::gen(r))) } }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { if let Some(x) = self { x.borrows(f) } }
}
impl<T: Model, E: Model> Model for Result<T, E> {
    fn schema() -> String { format!("{{\"k\":\"res\",\"t\":{},\"e\":{}}}", T::schema(), E::schema()) }
    fn val(&self, o: &mut String) {
        match self {
            Ok(x) => { o.push_str("[1,"); x.val(o) }
            Err(x) => { o.push_str("[0,"); x.val(o) }
        }
        o.push(']')
    }
    fn gen(r: &mut Rng) -> Self { deeper(|_| if r.chance(1, 2) { Ok(T::gen(r)) } else { Err(E::gen(r)) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { Ok(x) => x.borrows(f), Err(x) => x.borrows(f) } }
}
impl<T: Model> Model for std::ops::Range<T> {
    fn schema() -> String { format!("{{\"k\":\"tup\",\"ts\":[{},{}]}}", T::schema(), T::schema()) }
    fn val(&self, o: &mut String) { o.push('['); self.start.val(o); o.push(','); self.end.val(o); o.push(']') }
    fn gen(r: &mut Rng) -> Self { T::gen(r)..T::gen(r) }
}
impl<T: Model> Model for std::ops::RangeInclusive<T> {
    fn schema() -> String { format!("{{\"k\":\"tup\",\"ts\":[{},{}]}}", T::schema(), T::schema()) }
    fn val(&self, o: &mut String) { o.push('['); self.start().val(o); o.push(','); self.end().val(o); o.push(']') }
    fn gen(r: &mut Rng) -> Self { T::gen(r)..=T::gen(r) }
}
macro_rules! tuples {
    ($(($($n:ident $i:tt),+))+) => {$(
        impl<$($n: Model),+> Model for ($($n,)+) {
            fn schema() -> String {
                let v: Vec<String> = vec![$($n::schema()),+];
                format!("{{\"k\":\"tup\",\"ts\":[{}]}}", v.join(","))
            }
            fn val(&self, o: &mut String) {
                let mut first = true;
                o.push('[');
                $( if !first { o.push(','); } first = false; self.$i.val(o); )+
                let _ = first;
                o.push(']');
            }
            fn gen(r: &mut Rng) -> Self { deeper(|_| ($($n::gen(r),)+)) }
            fn borrows(&self, f: &mut dyn FnMut(Borrow)) { $( self.$i.borrows(f); )+ }
        }
    )+}
}
tuples! { (A 0) (A 0, B 1) (A 0, B 1, D 2) (A 0, B 1, D 2, E 3) (A 0, B 1, D 2, E 3, F 4)
          (A 0, B 1, D 2, E 3, F 4, G 5) (A 0, B 1, D 2, E 3, F 4, G 5, H 6)
          (A 0, B 1, D 2, E 3, F 4, G 5, H 6, I 7) (A 0, B 1, D 2, E 3, F 4, G 5, H 6, I 7, J 8)
          (A 0, B 1, D 2, E 3, F 4, G 5, H 6, I 7, J 8, K 9)
          (A 0, B 1, D 2, E 3, F 4, G 5, H 6, I 7, J 8, K 9, L 10) }

pub fn set_schema<T: Model>(ord: &str) -> String {
    format!("{{\"k\":\"set\",\"lt\":{},\"o\":\"{}\",\"t\":{}}}", u32l(), ord, T::schema())
}
pub fn map_schema<K: Model, V: Model>(ord: &str) -> String {
    format!("{{\"k\":\"map\",\"lt\":{},\"o\":\"{}\",\"a\":{},\"b\":{}}}", u32l(), ord, K::schema(), V::schema())
}
impl<T: Model + Ord> Model for BTreeSet<T> {
    fn schema() -> String { set_schema::<T>("sorted") }
    fn val(&self, o: &mut String) { list_val(self.iter(), o) }
    fn gen(r: &mut Rng) -> Self { gen_vec(r).into_iter().collect() }
}
impl<T: Model + Eq + std::hash::Hash, S: std::hash::BuildHasher + Default> Model for HashSet<T, S> {
    fn schema() -> String { set_schema::<T>("hash") }
    fn val(&self, o: &mut String) { list_val(self.iter(), o) }
    fn gen(r: &mut Rng) -> Self { gen_vec(r).into_iter().collect() }
}
impl<K: Model + Ord, V: Model> Model for BTreeMap<K, V> {
    fn schema() -> String { map_schema::<K, V>("sorted") }
    fn val(&self, o: &mut String) { map_val(self.iter(), o) }
    fn gen(r: &mut Rng) -> Self { gen_vec(r).into_iter().collect() }
}
impl<K: Model + Eq + std::hash::Hash, V: Model, S: std::hash::BuildHasher + Default> Model for HashMap<K, V, S> {
    fn schema() -> String { map_schema::<K, V>("hash") }
    fn val(&self, o: &mut String) { map_val(self.iter(), o) }
    fn gen(r: &mut Rng) -> Self { gen_vec(r).into_iter().collect() }
}
macro_rules! cows {
    ($($t:ty, [$($g:tt)*];)+) => {$(
        impl<$($g)*> Model for Cow<'static, $t> {
            fn schema() -> String { <$t>::schema() }
            fn val(&self, o: &mut String) { (**self).val(o) }
            fn gen(r: &mut Rng) -> Self { Cow::Owned(<$t>::gen(r)) }
            fn borrows(&self, f: &mut dyn FnMut(Borrow)) {
                // speedy never borrows these
                if let Cow::Borrowed(_) = self {
                    f(Borrow { ptr: 0, bytes: 1, align: 1, size: 1, kind: 1, prim: true, conv: false });
                }
            }
        }
    )+}
}
cows! { BTreeSet<T>, [T: Model + Ord + Clone]; HashSet<T>, [T: Model + Eq + std::hash::Hash + Clone];
        BTreeMap<K, V>, [K: Model + Ord + Clone, V: Model + Clone];
        HashMap<K, V>, [K: Model + Eq + std::hash::Hash + Clone, V: Model + Clone]; }

// ---------------------------------------------------------------- time, network, byte order
fn secs_nanos(s: u64, n: u32, o: &mut String) { o.push('['); s.val(o); o.push(','); n.val(o); o.push(']') }
impl Model for std::time::Duration {
    fn schema() -> String { "{\"k\":\"dur\"}".into() }
    fn val(&self, o: &mut String) { secs_nanos(self.as_secs(), self.subsec_nanos(), o) }
    fn gen(r: &mut Rng) -> Self { std::time::Duration::new(r.int() as u64, (r.int() as u32) % 1_000_000_000) }
}
impl Model for std::time::SystemTime {
    fn schema() -> String { "{\"k\":\"systime\"}".into() }
    fn val(&self, o: &mut String) {
        match self.duration_since(std::time::SystemTime::UNIX_EPOCH) {
            Ok(d) => d.val(o),
            Err(_) => o.push_str("[]"),
        }
    }
    fn gen(r: &mut Rng) -> Self {
        let d = std::time::Duration::new(r.int() as u64 >> 1 >> r.below(40), (r.int() as u32) % 1_000_000_000);
        let e = std::time::SystemTime::UNIX_EPOCH;
        if r.chance(1, 8) {
            e.checked_sub(std::time::Duration::new(r.next() % 100000, 1)).unwrap()
        } else {
            e.checked_add(d).unwrap_or(e)
        }
    }
}
impl Model for std::net::Ipv4Addr {
    fn schema() -> String { "{\"k\":\"int\",\"w\":4}".into() }
    fn val(&self, o: &mut String) { u32::from_be_bytes(self.octets()).val(o) }
    fn gen(r: &mut Rng) -> Self { (r.int() as u32).into() }
    const FLAT: Option<usize> = Some(4);
    fn flat(&self, o: &mut Vec<u8>) { u32::from_be_bytes(self.octets()).flat(o) }
}
impl Model for std::net::Ipv6Addr {
    fn schema() -> String { "{\"k\":\"int\",\"w\":16}".into() }
    fn val(&self, o: &mut String) { u128::from_be_bytes(self.octets()).val(o) }
    fn gen(r: &mut Rng) -> Self { r.int().into() }
    const FLAT: Option<usize> = Some(16);
    fn flat(&self, o: &mut Vec<u8>) { u128::from_be_bytes(self.octets()).flat(o) }
}
pub fn field(t: String) -> String { format!("{{\"t\":{},\"doe\":false,\"skip\":false,\"pre\":[]}}", t) }
pub fn tag8(n: u64) -> String { let mut o = String::new(); jbytes(&mut o, &n.to_le_bytes()); o }
pub fn enum_schema(tt: &str, peek: bool, vs: &[(u64, Vec<String>)]) -> String {
    let v: Vec<String> = vs.iter().map(|(t, fs)| format!("{{\"tag\":{},\"fs\":[{}]}}", tag8(*t), fs.join(","))).collect();
    format!("{{\"k\":\"enum\",\"tt\":\"{}\",\"peek\":{},\"vs\":[{}]}}", tt, peek, v.join(","))
}
pub fn struct_schema(fs: &[String]) -> String { format!("{{\"k\":\"struct\",\"fs\":[{}]}}", fs.join(",")) }
impl Model for std::net::IpAddr {
    fn schema() -> String {
        enum_schema("u8", false, &[(0, vec![field(std::net::Ipv4Addr::schema())]), (1, vec![field(std::net::Ipv6Addr::schema())])])
    }
    fn val(&self, o: &mut String) {
        match self {
            std::net::IpAddr::V4(x) => { o.push_str("[1,["); x.val(o) }
            std::net::IpAddr::V6(x) => { o.push_str("[2,["); x.val(o) }
        }
        o.push_str("]]");
    }
    fn gen(r: &mut Rng) -> Self {
        if r.chance(1, 2) { std::net::IpAddr::V4(Model::gen(r)) } else { std::net::IpAddr::V6(Model::gen(r)) }
    }
}
impl Model for speedy::Endianness {
    fn schema() -> String { enum_schema("u8", false, &[(0, vec![]), (1, vec![])]) }
    fn val(&self, o: &mut String) {
        write!(o, "[{},[]]", match self { speedy::Endianness::LittleEndian => 1, speedy::Endianness::BigEndian => 2 }).unwrap();
    }
    fn gen(r: &mut Rng) -> Self {
        if r.chance(1, 2) { speedy::Endianness::LittleEndian } else { speedy::Endianness::BigEndian }
    }
}

// ---------------------------------------------------------------- derived types
pub fn fieldx(t: String, doe: bool, skip: bool, pre: &[u8]) -> String {
    let mut p = String::new();
    jbytes(&mut p, pre);
    format!("{{\"t\":{},\"doe\":{},\"skip\":{},\"pre\":{}}}", t, doe, skip, p)
}
/// the schema with another length encoding
pub fn with_lt(t: String, lt: &str) -> String { t.replacen("{\"l\":\"u32\"}", lt, 1) }
pub fn varint_schema() -> String { "{\"k\":\"varint\"}".into() }
pub fn any_schema() -> String { "{\"k\":\"any\"}".into() }

/// Collections with a chosen number of elements (as counted by their length).
pub trait GenN: Sized { fn gen_n(r: &mut Rng, n: usize) -> Self; }
pub fn gen_string_n(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    while s.len() < n {
        let c = if r.chance(3, 4) { (b'a' + r.below(26) as u8) as char } else { char::gen(r) };
        if s.len() + c.len_utf8() <= n { s.push(c) }
    }
    s
}
impl GenN for String { fn gen_n(r: &mut Rng, n: usize) -> Self { gen_string_n(r, n) } }
impl GenN for Cow<'static, str> { fn gen_n(r: &mut Rng, n: usize) -> Self { Cow::Owned(gen_string_n(r, n)) } }
impl GenN for &'static str { fn gen_n(r: &mut Rng, n: usize) -> Self { leak(gen_string_n(r, n).into_boxed_str()) } }
impl<T: Model> GenN for Vec<T> { fn gen_n(r: &mut Rng, n: usize) -> Self { deeper(|_| (0..n).map(|_| T::gen(r)).collect()) } }
impl<T: Model + Clone> GenN for Cow<'static, [T]> { fn gen_n(r: &mut Rng, n: usize) -> Self { Cow::Owned(GenN::gen_n(r, n)) } }
impl<T: Model> GenN for &'static [T] { fn gen_n(r: &mut Rng, n: usize) -> Self { leak(Vec::<T>::gen_n(r, n).into_boxed_slice()) } }
impl<T: GenN> GenN for Option<T> { fn gen_n(r: &mut Rng, n: usize) -> Self { if r.chance(1, 4) { None } else { Some(T::gen_n(r, n)) } } }
macro_rules! gen_n_sets { ($($t:ty, [$($g:tt)*];)+) => {$(
    impl<$($g)*> GenN for $t {
        fn gen_n(r: &mut Rng, n: usize) -> Self {
            deeper(|_| { let mut s = <$t>::new(); for _ in 0..n * 20 + 20 { if s.len() >= n { break } s.extend(std::iter::once(Model::gen(r))); } s })
        }
    }
    impl<$($g)*> GenN for Cow<'static, $t> where $t: Clone { fn gen_n(r: &mut Rng, n: usize) -> Self { Cow::Owned(GenN::gen_n(r, n)) } }
)+} }
gen_n_sets! { BTreeSet<T>, [T: Model + Ord]; HashSet<T>, [T: Model + Eq + std::hash::Hash];
              BTreeMap<K, V>, [K: Model + Ord, V: Model]; HashMap<K, V>, [K: Model + Eq + std::hash::Hash, V: Model]; }
/// Mostly small; now and then around the limits of the length encoding.
pub fn gen_upto<T: GenN>(r: &mut Rng, lt: &str) -> T {
    if let Some(n) = lim() { return T::gen_n(r, n) }
    let n = deeper(|d| glen(r, d));
    let n = match lt {
        "u7" if r.chance(1, 6) => 124 + r.below(8),
        "u8" if r.chance(1, 8) => 252 + r.below(8),
        "varint" if r.chance(1, 8) => 125 + r.below(6),
        _ => n,
    };
    T::gen_n(r, n)
}
