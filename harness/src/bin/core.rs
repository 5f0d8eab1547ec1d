#![allow(unused_imports)]
use harness::ops::TypeOps;
use harness::{reg, reg_be, reg_le};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::net::*;
use std::num::*;
use std::ops::{Range, RangeInclusive};
use std::sync::atomic::*;
use std::time::{Duration, SystemTime};
use speedy::Endianness;

#[cfg(not(feature = "alloc"))]
mod bare {
    use harness::{model::{Borrow, Model}, util::Rng};
    use speedy::{Context, Readable, Reader, Writable, Writer};
    pub struct Sl<T: 'static>(&'static [T]);
    impl<C: Context, T> Readable<'static, C> for Sl<T> where &'static [T]: Readable<'static, C> {
        fn read_from<R: Reader<'static, C>>(r: &mut R) -> Result<Self, C::Error> { Ok(Sl(r.read_value()?)) }
        fn minimum_bytes_needed() -> usize { <&'static [T] as Readable<'static, C>>::minimum_bytes_needed() }
    }
    impl<C: Context, T: Writable<C>> Writable<C> for Sl<T> {
        fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> { self.0.write_to(w) }
        fn bytes_needed(&self) -> Result<usize, C::Error> { Writable::<C>::bytes_needed(self.0) }
    }
    impl<T: Model> Model for Sl<T> {
        fn schema() -> String { <&'static [T]>::schema() }
        fn val(&self, o: &mut String) { self.0.val(o) }
        fn gen(r: &mut Rng) -> Self { Sl(Model::gen(r)) }
        fn borrows(&self, f: &mut dyn FnMut(Borrow)) { self.0.borrows(f) }
    }
}
fn main() {
    let mut v: Vec<TypeOps> = Vec::new();
    reg!(v, "std scalar"; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, f32, f64, bool, char, AtomicU8, AtomicU16, AtomicU32, AtomicU64,
        AtomicI8, AtomicI16, AtomicI32, AtomicI64, NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64);
    reg!(v, "std other"; (), Duration, Ipv4Addr, Ipv6Addr, IpAddr, Endianness, Range<u16>, RangeInclusive<i32>, Range<u64>);
    #[cfg(feature = "std")]
    reg!(v, "std other"; SystemTime);
    #[cfg(feature = "alloc")]
    reg!(v, "std text"; String, Box<str>, Cow<'static, str>, Option<String>, Vec<String>, BTreeMap<String, String>, Result<String, char>,
        (char, String, u8), Vec<char>);
    reg!(v, "std text ref"; &'static str, (u8, &'static str), Option<&'static str>);
    #[cfg(feature = "alloc")]
    reg!(v, "std text ref"; Vec<&'static str>);
    reg!(v, "std bytes plain"; [u8; 5], [u8; 0], [i8; 7]);
    #[cfg(feature = "alloc")]
    reg!(v, "std bytes plain"; Vec<u8>, Box<[u8]>, Cow<'static, [u8]>, Vec<i8>, Cow<'static, [i8]>);
    reg!(v, "std ref bytes"; &'static [u8; 4]);
    #[cfg(not(feature = "alloc"))]
    {
        // there a slice is writable, a reference to one is not
        use bare::Sl;
        reg!(v, "std ref bytes"; Sl<u8>, Sl<i8>, (u16, Sl<u8>, u8));
        reg_le!(v, "std ref le mref"; Sl<u16>, Sl<u32>, Sl<u64>, Sl<u128>, Sl<f32>, Sl<i64>, (u8, Sl<u16>), Option<Sl<u32>>, Sl<u8>);
        reg_be!(v, "std be"; Sl<u8>);
    }
    #[cfg(feature = "alloc")]
    reg!(v, "std ref bytes"; &'static [u8], &'static [i8], (u16, &'static [u8], u8), Vec<&'static [u8]>);
    reg!(v, "std plain"; [u16; 3], [u32; 4], [u64; 2], [u128; 2], [i16; 5], [f32; 3], [[u16; 2]; 3], [[u32; 3]; 2]);
    #[cfg(feature = "alloc")]
    reg!(v, "std plain"; Vec<u16>, Vec<u32>, Vec<u64>, Vec<u128>, Vec<i16>, Vec<i32>, Vec<i64>, Vec<i128>, Vec<f32>, Vec<f64>, Vec<usize>, Box<[u16]>,
        Box<[u64]>, Box<[f32]>, Cow<'static, [u16]>, Cow<'static, [u32]>, Cow<'static, [u64]>, Cow<'static, [u128]>, Cow<'static, [f64]>,
        BTreeSet<u16>, BTreeSet<u64>, BTreeSet<i32>, BTreeSet<i8>, Cow<'static, BTreeSet<u32>>, BTreeMap<u16, u64>, BTreeMap<u8, u32>,
        BTreeMap<i16, i64>, Cow<'static, BTreeMap<u32, u8>>);
    #[cfg(feature = "std")]
    reg!(v, "std plain"; HashSet<u8>, HashSet<u32>, Cow<'static, HashSet<u16>>, HashMap<u8, u8>, HashMap<u32, u16>, Cow<'static, HashMap<u16, u16>>);
    reg!(v, "std coll"; [Option<u16>; 3]);
    #[cfg(feature = "alloc")]
    reg!(v, "std coll"; Vec<bool>, Vec<(u8, u16)>, Vec<Vec<u16>>, Vec<Option<u32>>, Vec<Vec<Vec<u8>>>, Box<[(u16, bool)]>, Cow<'static, [bool]>,
        Cow<'static, [Option<u8>]>, Vec<[u16; 2]>, Vec<Cow<'static, [u16]>>, Vec<Cow<'static, str>>, Vec<Box<u32>>, [String; 2], [Vec<u8>; 3],
        BTreeSet<char>, BTreeSet<String>, BTreeSet<(u8, u16)>, BTreeSet<[u8; 2]>, BTreeSet<Option<u8>>, BTreeSet<bool>, BTreeMap<String, Vec<u8>>,
        BTreeMap<u8, BTreeMap<u8, u16>>, BTreeMap<bool, String>, BTreeMap<(u8, u8), Option<u16>>, Cow<'static, BTreeMap<String, u8>>,
        BTreeMap<i8, BTreeSet<i16>>);
    #[cfg(feature = "std")]
    reg!(v, "std coll"; HashSet<String>, HashSet<(u8, bool)>, HashMap<String, u32>, HashMap<u8, HashSet<u8>>, HashMap<u16, Vec<u32>>,
        HashMap<char, char>, HashMap<[u8; 2], (u8, u16)>);
    reg!(v, "std nest"; Option<u8>, Option<u64>, Option<Option<u16>>, Result<u8, u16>, Result<(), u32>, (u8,), (u8, u16), (u16, u8, u32),
        (u8, u16, u32, u64), (u64, u8, u16, i8, f32), (u8, u16, u8, u16, u8, u16), (u8, u8, u16, u32, u8, u8, bool),
        (u8, u16, u8, u16, u8, u16, u8, u16), (u8, u16, u8, u16, u8, u16, u8, u16, u32), (u8, u16, u8, u16, u8, u16, u8, u16, u32, u64),
        (u8, u16, u8, u16, u8, u16, u8, u16, u32, u64, i8), Option<(u8, Duration)>, (bool, char, NonZeroU16, NonZeroI8), [NonZeroU8; 3], [char; 2]);
    #[cfg(feature = "alloc")]
    reg!(v, "std nest"; Option<Box<u32>>, Option<Vec<u16>>, Result<Vec<u8>, String>, Box<u64>, Box<(u8, u32)>, (Vec<u8>, Vec<u16>),
        (String, Option<Vec<(u8, u32)>>, [u16; 2]), Vec<Result<u8, (u16, char)>>, Vec<IpAddr>, Vec<Duration>, Result<Option<u8>, Vec<u16>>,
        Vec<NonZeroU32>);
    #[cfg(feature = "std")]
    reg!(v, "std nest"; Vec<SystemTime>);
    reg!(v, "std zst"; [(); 3], Option<()>, (u8, [u16; 0], u8));
    #[cfg(feature = "alloc")]
    reg!(v, "std zst"; Vec<()>, Vec<[u8; 0]>, BTreeSet<()>, Box<[()]>);
    reg_le!(v, "std le"; u16, u64, f32, [u32; 3], Option<u32>, char, usize, (u8, u64), Duration, Ipv6Addr);
    #[cfg(feature = "alloc")]
    reg_le!(v, "std le"; Vec<u16>, Cow<'static, [u32]>, String, BTreeMap<u16, u32>, Vec<String>, Vec<u8>);
    #[cfg(feature = "std")]
    reg_le!(v, "std le"; HashSet<u16>);
    reg_le!(v, "std ref le mref"; &'static [u16; 3], &'static [u64; 2], &'static [u8; 3], &'static str);
    #[cfg(feature = "alloc")]
    reg_le!(v, "std ref le mref"; &'static [u16], &'static [u32], &'static [u64], &'static [u128], &'static [i16], &'static [f32], &'static [f64],
        &'static [u8], (u8, &'static [u16]), (u32, &'static [u64], u8), Vec<&'static [u32]>, Option<&'static [u16]>);
    reg_be!(v, "std be"; u16, u32, f64, [u64; 2], Option<u32>, char, (u8, u64), Ipv4Addr, &'static str);
    #[cfg(feature = "alloc")]
    reg_be!(v, "std be"; Vec<u16>, Vec<u128>, Cow<'static, [u32]>, String, BTreeMap<u16, u32>, Vec<u8>, &'static [u8]);
    #[cfg(feature = "std")]
    reg_be!(v, "std be"; HashSet<u16>, SystemTime);
    harness::jobs::main(v);
}
