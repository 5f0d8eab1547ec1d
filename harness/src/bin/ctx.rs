use harness::model::*;
use harness::ops::TypeOps;
use harness::reg_tick;
use harness::tick::*;
use harness::util::*;
use indexmap_v2 as i2;
use smallvec::SmallVec;
use speedy::{Readable, Writable};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::ops::{Range, RangeInclusive};
use std::time::Duration;

fn f<T: Model>() -> String { fieldx(T::schema(), false, false, &[]) }
/// val, gen for structs with named fields
macro_rules! body {
    ($($n:tt),+) => {
        fn val(&self, o: &mut String) { o.push('['); let mut first = true; $( if !first { o.push(',') } first = false; self.$n.val(o); )+ let _ = first; o.push(']') }
    };
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Readable, Writable)]
struct GS<T> { a: u16, b: T, c: Vec<T> }
impl<T: Model> Model for GS<T> {
    fn schema() -> String { struct_schema(&[f::<u16>(), f::<T>(), f::<Vec<T>>()]) }
    body!(a, b, c);
    fn gen(r: &mut Rng) -> Self { deeper(|_| GS { a: Model::gen(r), b: Model::gen(r), c: Model::gen(r) }) }
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Readable, Writable)]
struct GT<T>(T, u8, Option<T>);
impl<T: Model> Model for GT<T> {
    fn schema() -> String { struct_schema(&[f::<T>(), f::<u8>(), f::<Option<T>>()]) }
    body!(0, 1, 2);
    fn gen(r: &mut Rng) -> Self { deeper(|_| GT(Model::gen(r), Model::gen(r), Model::gen(r))) }
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Readable, Writable)]
#[speedy(tag_type = u8)]
enum GE<T> { A, B(T), #[speedy(tag = 9)] C { x: Vec<T>, y: u32 }, D(Box<T>, T) }
impl<T: Model> Model for GE<T> {
    fn schema() -> String { enum_schema("u8", false, &[(0, vec![]), (1, vec![f::<T>()]), (9, vec![f::<Vec<T>>(), f::<u32>()]), (10, vec![f::<T>(), f::<T>()])]) }
    fn val(&self, o: &mut String) {
        match self {
            GE::A => o.push_str("[1,[]]"),
            GE::B(x) => { o.push_str("[2,["); x.val(o); o.push_str("]]") }
            GE::C { x, y } => { o.push_str("[3,["); x.val(o); o.push(','); y.val(o); o.push_str("]]") }
            GE::D(x, y) => { o.push_str("[4,["); x.val(o); o.push(','); y.val(o); o.push_str("]]") }
        }
    }
    fn gen(r: &mut Rng) -> Self {
        deeper(|_| match r.below(4) { 0 => GE::A, 1 => GE::B(Model::gen(r)), 2 => GE::C { x: Model::gen(r), y: Model::gen(r) }, _ => GE::D(Model::gen(r), Model::gen(r)) })
    }
}
/// lengths of several kinds
#[derive(Clone, Readable, Writable)]
struct GL<T> { #[speedy(length_type = u7)] a: Vec<T>, n: u8, #[speedy(length = n % 5)] b: Vec<T>, #[speedy(length_type = u64_varint)] c: Option<Vec<T>> }
impl<T: Model> Model for GL<T> {
    fn schema() -> String {
        let x = "{\"l\":\"x\",\"x\":{\"x\":\"mod\",\"a\":{\"x\":\"f\",\"i\":2},\"b\":{\"x\":\"n\",\"n\":5}},\"nm\":\"b\"}";
        struct_schema(&[fieldx(with_lt(<Vec<T>>::schema(), "{\"l\":\"u7\"}"), false, false, &[]), f::<u8>(), fieldx(with_lt(<Vec<T>>::schema(), x), false, false, &[]),
                        fieldx(with_lt(<Option<Vec<T>>>::schema(), "{\"l\":\"varint\"}"), false, false, &[])])
    }
    body!(a, n, b, c);
    fn gen(r: &mut Rng) -> Self { deeper(|_| { let a = Model::gen(r); let n: u8 = Model::gen(r); GL { a, n, b: GenN::gen_n(r, n as usize % 5), c: Model::gen(r) } }) }
}
/// a tail that may be missing
#[derive(Clone, Readable, Writable)]
struct GD<T: Default> { a: T, #[speedy(default_on_eof)] b: T, #[speedy(default_on_eof)] c: Vec<T> }
impl<T: Model + Default> Model for GD<T> {
    fn schema() -> String { struct_schema(&[f::<T>(), fieldx(T::schema(), true, false, &[]), fieldx(<Vec<T>>::schema(), true, false, &[])]) }
    body!(a, b, c);
    fn gen(r: &mut Rng) -> Self { deeper(|_| GD { a: Model::gen(r), b: Model::gen(r), c: Model::gen(r) }) }
}
/// up to the end
#[derive(Clone, Readable, Writable)]
struct GU<T> { a: u8, #[speedy(length = ..)] b: Vec<T> }
impl<T: Model> Model for GU<T> {
    fn schema() -> String { struct_schema(&[f::<u8>(), fieldx(with_lt(<Vec<T>>::schema(), "{\"l\":\"eof\"}"), false, false, &[])]) }
    body!(a, b);
    fn gen(r: &mut Rng) -> Self { deeper(|_| GU { a: Model::gen(r), b: Model::gen(r) }) }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Readable, Writable)]
struct GK<T: Default> { #[speedy(skip)] a: T, #[speedy(constant_prefix = "ab")] b: T, #[speedy(constant_prefix = 7u8)] c: u16 }
impl<T: Model + Default> Model for GK<T> {
    fn schema() -> String { struct_schema(&[fieldx(T::schema(), false, true, &[]), fieldx(T::schema(), false, false, b"ab"), fieldx(u16::schema(), false, false, &[7])]) }
    body!(a, b, c);
    fn gen(r: &mut Rng) -> Self { deeper(|_| GK { a: Model::gen(r), b: Model::gen(r), c: Model::gen(r) }) }
}
/// the part in the middle is in the other byte order
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Readable, Writable)]
struct W<A, B, F> { a: A, f: F, b: B, g: F, c: A }
impl<A: Model, B: Model, F: Model> Model for W<A, B, F> {
    fn schema() -> String { struct_schema(&[f::<A>(), f::<F>(), fieldx(inv(B::schema()), false, false, &[]), f::<F>(), f::<A>()]) }
    body!(a, f, b, g, c);
    fn gen(r: &mut Rng) -> Self { deeper(|_| W { a: Model::gen(r), f: Model::gen(r), b: Model::gen(r), g: Model::gen(r), c: Model::gen(r) }) }
}
/// the same with other lengths
#[derive(Clone, Readable, Writable)]
struct X<A, F> { #[speedy(length_type = u16)] a: Vec<A>, f: F, #[speedy(length_type = u16)] b: Vec<A>, #[speedy(varint)] v: u64, #[speedy(length_type = u64)] c: Vec<u16>, g: F }
impl<A: Model, F: Model> Model for X<A, F> {
    fn schema() -> String {
        let l = |t: String, l: &str| with_lt(t, &format!("{{\"l\":\"{}\"}}", l));
        struct_schema(&[fieldx(l(<Vec<A>>::schema(), "u16"), false, false, &[]), f::<F>(), fieldx(inv(l(<Vec<A>>::schema(), "u16")), false, false, &[]),
                        fieldx(varint_schema(), false, false, &[]), fieldx(inv(l(<Vec<u16>>::schema(), "u64")), false, false, &[]), f::<F>()])
    }
    body!(a, f, b, v, c, g);
    fn gen(r: &mut Rng) -> Self { deeper(|_| X { a: Model::gen(r), f: Model::gen(r), b: Model::gen(r), v: Model::gen(r), c: Model::gen(r), g: Model::gen(r) }) }
}
type Fl = Flip;

/// Known findings, shown on their own inputs: what each way of reading or writing gives.
mod probes {
    use super::*;
    use harness::ops::*;
    #[derive(Readable, Writable)]
    struct Tail { a: u8, #[speedy(default_on_eof)] b: u16, #[speedy(default_on_eof)] c: u8 }
    impl Model for Tail {
        fn schema() -> String { String::new() }
        body!(a, b, c);
        fn gen(r: &mut Rng) -> Self { Tail { a: Model::gen(r), b: Model::gen(r), c: Model::gen(r) } }
    }
    #[derive(Readable, Writable)]
    struct Chars { #[speedy(default_on_eof)] v: Vec<char> }
    impl Model for Chars {
        fn schema() -> String { String::new() }
        body!(v);
        fn gen(r: &mut Rng) -> Self { Chars { v: Model::gen(r) } }
    }
    /// consults the context while being written
    struct Asks;
    impl Writable<Tick> for Asks {
        fn write_to<W: ?Sized + speedy::Writer<Tick>>(&self, w: &mut W) -> Result<(), TErr> {
            let n = w.context().at() as u8;
            w.write_u8(n)
        }
    }
    fn reads<T: Readable<'static, speedy::Endianness> + Model>(input: &'static [u8]) {
        let f = std::env::temp_dir().join(format!("probe-{}", std::process::id()));
        std::fs::write(&f, input).unwrap();
        for m in RMode::ALL {
            let o = read_with::<speedy::Endianness, T>(m, E::Le, &RArgs { input, sched: Sched::All, fault: None, file: &f });
            println!("{} {}", m.s(), if o.s == "ok" { o.v } else { o.c });
        }
        let _ = std::fs::remove_file(&f);
    }
    pub fn run(name: &str) {
        std::panic::set_hook(Box::new(|_| ()));
        match name {
            "partial-tail" => reads::<Tail>(&[0xAA, 0xBB]),
            "fault-then-eof" => reads::<Chars>(&[2, 0, 0, 0, 0xFF, 0xFF, 0xFF, 0xFF]),
            "size-context" => {
                let f = std::env::temp_dir().join(format!("probe-{}", std::process::id()));
                reset(9);
                for m in WMode::ALL {
                    let o = write_with::<Tick, Asks>(&Asks, m, E::Le, &WArgs { sched: Sched::All, fault: None, zero: false, file: &f, bufsize: Some(1) });
                    println!("{} {}", m.s(), if o.s == "ok" { format!("{:?}", o.b) } else { o.c });
                }
                let _ = std::fs::remove_file(&f);
            }
            n => panic!("no probe {}", n),
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("probe") { return probes::run(&a[2]) }
    let mut v: Vec<TypeOps> = Vec::new();
    reg_tick!(v, "mark"; M, Vec<M>, Box<[M]>, Cow<'static, [M]>, [M; 1], [M; 4], [M; 0], Option<M>, Option<Option<M>>, Result<M, M>, Result<Vec<M>, u16>, Box<M>, (M,), (M, u16, M), (u32, M, String, M), Range<M>, RangeInclusive<M>,
        Vec<Vec<M>>, Vec<[M; 2]>, [Vec<M>; 2], Vec<(M, u16)>, Vec<Option<M>>, Option<Vec<(M, u32)>>, Vec<(String, M)>, BTreeSet<M>, HashSet<M>, BTreeMap<M, M>, HashMap<u8, M>, HashMap<M, Vec<M>>, BTreeMap<u16, (M, M)>,
        Cow<'static, BTreeMap<M, M>>, Cow<'static, HashSet<M>>, SmallVec<[M; 2]>, i2::IndexMap<M, M>, i2::IndexSet<M>, (M, Duration, char), Vec<Box<M>>, [Option<M>; 2], (M, Vec<u16>, M), (M, &'static [u8], M),
        GS<M>, GT<M>, GE<M>, GL<M>, GK<M>, GS<GE<M>>, GT<GT<M>>, GE<(M, u8)>, Vec<GE<M>>, GL<(M, u16)>, GK<[M; 2]>, Vec<GK<M>>, GS<Option<M>>, BTreeMap<M, GS<M>>, [GE<M>; 2], GL<GE<M>>);
    reg_tick!(v, "mark open"; GD<M>, GU<M>, GD<Vec<M>>, GD<Option<M>>, GU<(M, u16)>, GU<GE<M>>, GD<[M; 2]>);
    reg_tick!(v, "turn"; W<u16, u16, Fl>, W<u8, u64, Fl>, W<u32, Vec<u16>, Fl>, W<Vec<u32>, u8, Fl>, W<f64, [u32; 3], Fl>, W<[u16; 2], u128, Fl>, W<String, Duration, Fl>, W<M, u16, Fl>, W<(u16, u32), Vec<(u8, u16)>, Fl>,
        Vec<W<u16, u32, Fl>>, [W<u16, u8, Fl>; 2], W<Cow<'static, [u16]>, HashMap<u16, u32>, Fl>, W<Option<u32>, BTreeSet<u16>, Fl>, W<char, Vec<char>, Fl>, W<i64, Result<u16, i32>, Fl>, W<u16, W<u32, u16, Fl>, Fl>,
        W<usize, Vec<Vec<u16>>, Fl>, W<u16, GS<u32>, Fl>, W<GE<u16>, GE<u16>, Fl>, X<u32, Fl>, X<f32, Fl>, X<(u8, u16), Fl>, W<Vec<M>, GL<M>, Fl>, W<Box<[u64]>, SmallVec<[u16; 2]>, Fl>);
    harness::jobs::main(v);
}
