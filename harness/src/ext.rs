//! Types of the supported external crates.
use crate::model::*;
use crate::util::*;
use chrono::{DateTime, TimeZone, Utc};

impl Model for uuid::Uuid {
    fn schema() -> String { "{\"k\":\"raw\",\"n\":16}".into() }
    fn val(&self, o: &mut String) { jbytes(o, self.as_bytes()) }
    fn gen(r: &mut Rng) -> Self { uuid::Uuid::from_bytes(r.int().to_be_bytes()) }
}
impl Model for DateTime<Utc> {
    fn schema() -> String { "{\"k\":\"date\"}".into() }
    fn val(&self, o: &mut String) {
        o.push('[');
        jbytes(o, &self.timestamp().to_le_bytes());
        o.push(',');
        jbytes(o, &self.timestamp_subsec_nanos().to_le_bytes());
        o.push(']');
    }
    fn gen(r: &mut Rng) -> Self {
        let s = match r.below(6) {
            0 => DateTime::<Utc>::MIN_UTC.timestamp() + r.below(3) as i64,
            1 => DateTime::<Utc>::MAX_UTC.timestamp() - r.below(3) as i64,
            2 => (r.next() % 4_000_000_000) as i64,
            3 => -((r.next() % 4_000_000_000) as i64),
            _ => (r.next() as i64) % 8_210_266_876_799,
        };
        let n = match r.below(5) { 0 => 0, 1 => 999_999_999, _ => (r.next() % 1_000_000_000) as u32 };
        let (s, n) = if r.chance(1, 6) { (s.div_euclid(60) * 60 + 59, n + 1_000_000_000) } else { (s, n) };
        Utc.timestamp_opt(s, n).single().unwrap_or_default()
    }
}
macro_rules! glam_run {
    ($($t:ty, $c:ty, $n:expr, |$x:ident| $to:expr, |$a:ident| $from:expr;)+) => {$(
        impl Model for $t {
            fn schema() -> String { format!("{{\"k\":\"arr\",\"n\":{},\"t\":{}}}", $n, <$c>::schema()) }
            fn val(&self, o: &mut String) { let $x = self; run_val::<$c>(&$to[..], o) }
            fn gen(r: &mut Rng) -> Self { let $a: [$c; $n] = std::array::from_fn(|_| {
                // signalling NaNs do not survive being passed through floating point registers
                let v = <$c>::gen(r); if format!("{}", v) == "NaN" { Default::default() } else { v } }); $from }
        }
    )+};
}
use glam::*;
glam_run! {
    Vec2, f32, 2, |x| x.to_array(), |a| Vec2::from_array(a);
    Vec3, f32, 3, |x| x.to_array(), |a| Vec3::from_array(a);
    Vec3A, f32, 3, |x| x.to_array(), |a| Vec3A::from_array(a);
    Vec4, f32, 4, |x| x.to_array(), |a| Vec4::from_array(a);
    DVec2, f64, 2, |x| x.to_array(), |a| DVec2::from_array(a);
    DVec3, f64, 3, |x| x.to_array(), |a| DVec3::from_array(a);
    DVec4, f64, 4, |x| x.to_array(), |a| DVec4::from_array(a);
    IVec2, i32, 2, |x| x.to_array(), |a| IVec2::from_array(a);
    IVec3, i32, 3, |x| x.to_array(), |a| IVec3::from_array(a);
    IVec4, i32, 4, |x| x.to_array(), |a| IVec4::from_array(a);
    UVec2, u32, 2, |x| x.to_array(), |a| UVec2::from_array(a);
    UVec3, u32, 3, |x| x.to_array(), |a| UVec3::from_array(a);
    UVec4, u32, 4, |x| x.to_array(), |a| UVec4::from_array(a);
    Quat, f32, 4, |x| x.to_array(), |a| Quat::from_array(a);
    DQuat, f64, 4, |x| x.to_array(), |a| DQuat::from_array(a);
    Mat2, f32, 4, |x| x.to_cols_array(), |a| Mat2::from_cols_array(&a);
    Mat3, f32, 9, |x| x.to_cols_array(), |a| Mat3::from_cols_array(&a);
    Mat3A, f32, 9, |x| x.to_cols_array(), |a| Mat3A::from_cols_array(&a);
    Mat4, f32, 16, |x| x.to_cols_array(), |a| Mat4::from_cols_array(&a);
    DMat2, f64, 4, |x| x.to_cols_array(), |a| DMat2::from_cols_array(&a);
    DMat3, f64, 9, |x| x.to_cols_array(), |a| DMat3::from_cols_array(&a);
    DMat4, f64, 16, |x| x.to_cols_array(), |a| DMat4::from_cols_array(&a);
    Affine2, f32, 6, |x| x.to_cols_array(), |a| Affine2::from_cols_array(&a);
    Affine3A, f32, 12, |x| x.to_cols_array(), |a| Affine3A::from_cols_array(&a);
    DAffine2, f64, 6, |x| x.to_cols_array(), |a| DAffine2::from_cols_array(&a);
    DAffine3, f64, 12, |x| x.to_cols_array(), |a| DAffine3::from_cols_array(&a);
}
macro_rules! masks { ($($t:ty, $n:expr, |$b:ident| $from:expr, |$x:ident| $to:expr;)+) => {$(
    impl Model for $t {
        fn schema() -> String { format!("{{\"k\":\"mask\",\"n\":{}}}", $n) }
        fn val(&self, o: &mut String) {
            let $x = self;
            let a: [bool; $n] = $to;
            let mut n = 0u8;
            for i in 0..$n { if a[i] { n |= 1 << i } }
            o.push_str(&n.to_string())
        }
        fn gen(r: &mut Rng) -> Self { let $b: [bool; $n] = std::array::from_fn(|_| r.chance(1, 2)); $from }
    }
)+} }
masks! {
    BVec2, 2, |b| BVec2::new(b[0], b[1]), |v| [v.x, v.y];
    BVec3, 3, |b| BVec3::new(b[0], b[1], b[2]), |v| [v.x, v.y, v.z];
    BVec4, 4, |b| BVec4::new(b[0], b[1], b[2], b[3]), |v| [v.x, v.y, v.z, v.w];
}
impl<T: Model, const N: usize> Model for smallvec::SmallVec<[T; N]> where [T; N]: smallvec::Array<Item = T> {
    fn schema() -> String { seq_schema::<T>() }
    fn val(&self, o: &mut String) { run_val(&self[..], o) }
    fn gen(r: &mut Rng) -> Self { gen_vec(r).into() }
}
impl<T: Model + Eq + std::hash::Hash> Model for indexmap_v1::IndexSet<T> {
    fn schema() -> String { set_schema::<T>("ins") }
    fn val(&self, o: &mut String) { list_val(self.iter(), o) }
    fn gen(r: &mut Rng) -> Self { gen_vec(r).into_iter().collect() }
}
impl<T: Model + Eq + std::hash::Hash> Model for indexmap_v2::IndexSet<T> {
    fn schema() -> String { set_schema::<T>("ins") }
    fn val(&self, o: &mut String) { list_val(self.iter(), o) }
    fn gen(r: &mut Rng) -> Self { gen_vec(r).into_iter().collect() }
}
impl<K: Model + Eq + std::hash::Hash, V: Model> Model for indexmap_v1::IndexMap<K, V> {
    fn schema() -> String { map_schema::<K, V>("ins") }
    fn val(&self, o: &mut String) { map_val(self.iter(), o) }
    fn gen(r: &mut Rng) -> Self { gen_vec(r).into_iter().collect() }
}
impl<K: Model + Eq + std::hash::Hash, V: Model> Model for indexmap_v2::IndexMap<K, V> {
    fn schema() -> String { map_schema::<K, V>("ins") }
    fn val(&self, o: &mut String) { map_val(self.iter(), o) }
    fn gen(r: &mut Rng) -> Self { gen_vec(r).into_iter().collect() }
}
const GOOD: [&str; 11] = ["", "\u{e9}+", "[\u{3b1}-\u{3c9}]x", "a\u{20ac}?\u{10348}", "a", "a+b", "[0-9]{2,3}x*", "(ab|cd)?e", "^x$", "\\.", "a.*?b"];
const BAD: [&str; 7] = ["(", "[", "a{2,1}", "*", ")", "\\", "a**("];
impl Model for regex::Regex {
    fn schema() -> String {
        let l = |x: &[&str]| { let v: Vec<String> = x.iter().map(|s| { let mut o = String::new(); jbytes(&mut o, s.as_bytes()); o }).collect(); v.join(",") };
        format!("{{\"k\":\"regex\",\"good\":[{}],\"bad\":[{}]}}", l(&GOOD), l(&BAD))
    }
    fn val(&self, o: &mut String) { jbytes(o, self.as_str().as_bytes()) }
    fn gen(r: &mut Rng) -> Self { regex::Regex::new(r.pick(&GOOD)).unwrap() }
}
