//! Custom reading and writing code that performs scripts of primitive operations.
use harness::model::Model;
use harness::ops::class;
use harness::util::*;
use speedy::{Context, Endianness, Readable, Reader, Writable, Writer};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io::Write as _;
use std::num::NonZeroU16;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

type En = Endianness;
type Er = speedy::Error;
fn es(e: En) -> &'static str { if e == En::LittleEndian { "le" } else { "be" } }

#[derive(Readable, Writable, Debug, PartialEq)]
#[speedy(tag_type = u16, peek_tag)]
enum Peeky {
    #[speedy(tag = 1)]
    A(u16),
    #[speedy(tag = 2)]
    B(u16, Vec<u8>),
}
#[derive(Readable, Writable, Debug, PartialEq)]
struct Lens {
    #[speedy(length_type = u64_varint)]
    a: Vec<u16>,
    #[speedy(length_type = u8)]
    b: String,
    c: u8,
    #[speedy(length = (c % 4) as usize)]
    d: Vec<u32>,
}
impl Model for Peeky {
    fn schema() -> String {
        let f = |t: String| format!("{{\"t\":{},\"doe\":false,\"skip\":false,\"pre\":[]}}", t);
        format!("{{\"k\":\"enum\",\"tt\":\"u16\",\"peek\":true,\"vs\":[{{\"tag\":[1,0,0,0,0,0,0,0],\"fs\":[{}]}},{{\"tag\":[2,0,0,0,0,0,0,0],\"fs\":[{},{}]}}]}}",
                f(u16::schema()), f(u16::schema()), f(Vec::<u8>::schema()))
    }
    fn val(&self, o: &mut String) {
        match self {
            Peeky::A(a) => { o.push_str("[1,["); a.val(o); o.push_str("]]"); }
            Peeky::B(a, b) => { o.push_str("[2,["); a.val(o); o.push(','); b.val(o); o.push_str("]]"); }
        }
    }
    fn gen(r: &mut Rng) -> Self { if r.chance(1, 2) { Peeky::A(1) } else { Peeky::B(2, vec![7; r.below(4)]) } }
}
impl Model for Lens {
    fn schema() -> String {
        let f = |t: String| format!("{{\"t\":{},\"doe\":false,\"skip\":false,\"pre\":[]}}", t);
        format!("{{\"k\":\"struct\",\"fs\":[{},{},{},{}]}}",
            f(format!("{{\"k\":\"seq\",\"lt\":{{\"l\":\"varint\"}},\"t\":{}}}", u16::schema())),
            f("{\"k\":\"str\",\"lt\":{\"l\":\"u8\"}}".into()), f(u8::schema()),
            f(format!("{{\"k\":\"seq\",\"lt\":{{\"l\":\"x\",\"x\":{{\"x\":\"mod\",\"a\":{{\"x\":\"f\",\"i\":3}},\"b\":{{\"x\":\"n\",\"n\":4}}}},\"nm\":\"d\"}},\"t\":{}}}", u32::schema())))
    }
    fn val(&self, o: &mut String) {
        o.push('[');
        self.a.val(o); o.push(','); self.b.val(o); o.push(','); self.c.val(o); o.push(','); self.d.val(o);
        o.push(']');
    }
    fn gen(r: &mut Rng) -> Self {
        let c = u8::gen(r);
        Lens { a: (0..r.below(4)).map(|_| u16::gen(r)).collect(), b: "x\u{e9}".repeat(r.below(3)), c, d: (0..c % 4).map(|_| u32::gen(r)).collect() }
    }
}

#[derive(Clone, Debug)]
struct Op {
    o: &'static str,
    /// which type
    i: usize,
    n: usize,
}
impl Op {
    fn sat(&self) -> usize { self.n.min(1 << 30) }
    fn json(&self) -> String {
        match self.o {
            "rb" | "pb" | "sk" | "bb" | "bf" => format!("{{\"o\":\"{}\",\"n\":{},\"t\":{{\"k\":\"raw\",\"n\":{}}}}}", self.o, self.sat(), self.sat()),
            "cr" => format!("{{\"o\":\"cr\",\"n\":{}}}", self.sat()),
            "bu" | "ge" => format!("{{\"o\":\"{}\"}}", self.o),
            "se" => format!("{{\"o\":\"se\",\"e\":\"{}\"}}", if self.n == 0 { "le" } else { "be" }),
            "rv" => "{\"o\":\"rd\",\"t\":{\"k\":\"varint\"}}".into(),
            "pv" => "{\"o\":\"pk\",\"t\":{\"k\":\"varint\"}}".into(),
            "str" => format!("{{\"o\":\"rd\",\"t\":{{\"k\":\"str\",\"lt\":{}}}}}", self.lt()),
            _ => {
                let (o, t) = schema_of(self.o, self.i, self.lt());
                format!("{{\"o\":\"{}\",\"t\":{}}}", o, t)
            }
        }
    }
    fn lt(&self) -> String {
        format!("{{\"l\":\"x\",\"x\":{{\"x\":\"n\",\"n\":{}}}}}", self.sat())
    }
}
const EOF: &str = "{\"l\":\"eof\"}";
fn seq<T: Model>(lt: &str) -> String { format!("{{\"k\":\"seq\",\"lt\":{},\"t\":{}}}", lt, T::schema()) }
fn set<T: Model>(lt: &str, o: &str) -> String { format!("{{\"k\":\"set\",\"o\":\"{}\",\"lt\":{},\"t\":{}}}", o, lt, T::schema()) }
fn map<K: Model, V: Model>(lt: &str, o: &str) -> String {
    format!("{{\"k\":\"map\",\"o\":\"{}\",\"lt\":{},\"a\":{},\"b\":{}}}", o, lt, K::schema(), V::schema())
}

thread_local! {
    static OPS: RefCell<Vec<Op>> = RefCell::new(vec![]);
    static OUTS: RefCell<Vec<String>> = RefCell::new(vec![]);
    static INPUT: RefCell<(usize, usize)> = RefCell::new((0, 0));
    static PATTERN: RefCell<bool> = RefCell::new(false);
    static WOPS: RefCell<Vec<WOp>> = RefCell::new(vec![]);
    static WQ: RefCell<Vec<[i64; 2]>> = RefCell::new(vec![]);
}
const MOD: usize = 127;
/// maximal runs of bytes that count up modulo MOD
fn runs(b: &[u8]) -> String {
    let mut v: Vec<(usize, usize)> = Vec::new();
    for x in b {
        let x = *x as usize;
        match v.last_mut() {
            Some(l) if x < MOD && (l.0 + l.1) % MOD == x && l.0 < MOD => l.1 += 1,
            _ => v.push((x, 1)),
        }
    }
    if v.len() > 40 { v.truncate(40); }
    let s: Vec<String> = v.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect();
    format!("[{}]", s.join(","))
}
fn push(s: String) { OUTS.with(|o| o.borrow_mut().push(s)) }
fn ok(v: &str) { push(format!("{{\"s\":\"ok\",\"c\":\"\",\"v\":{}}}", v)) }
fn ok_bytes(b: &[u8]) {
    if PATTERN.with(|p| *p.borrow()) { ok(&runs(b)) } else {
        let mut s = String::new();
        jbytes(&mut s, b);
        ok(&s)
    }
}
fn bad(e: &Er) { push(format!("{{\"s\":\"err\",\"c\":{},\"v\":0}}", jstr(&class(e)))) }
/// Reports a value; in pattern mode as the bytes its integers have in byte order e.
fn out<T: Model>(r: Result<T, Er>, e: En) -> Result<(), Er> {
    match r {
        Ok(v) => {
            if PATTERN.with(|p| *p.borrow()) {
                ok_bytes(&T::raw_bytes(&v, e));
            } else {
                let mut s = String::new();
                v.val(&mut s);
                ok(&s);
            }
            Ok(())
        }
        Err(x) => { bad(&x); Err(x) }
    }
}
trait Raw { fn raw_bytes(&self, e: En) -> Vec<u8>; }
impl<T: Model> Raw for T {
    fn raw_bytes(&self, e: En) -> Vec<u8> {
        // the JSON of plain integers and sequences of them lists their little endian bytes
        let mut s = String::new();
        self.val(&mut s);
        let w = WIDTH.with(|w| *w.borrow());
        let mut b: Vec<u8> = s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse::<u16>().unwrap() as u8).collect();
        if e == En::BigEndian && w > 1 { for c in b.chunks_mut(w) { c.reverse(); } }
        b
    }
}
thread_local! { static WIDTH: RefCell<usize> = RefCell::new(1); }
fn width(n: usize) { WIDTH.with(|w| *w.borrow_mut() = n) }

macro_rules! kinds {
    (
        scalars: $($si:literal $st:ident $sr:ident $sp:ident $sw:ident,)+;
        values: $($vi:literal $vt:ty,)+;
        vecs: $($ci:literal $ct:ty,)+;
        cows: $($oi:literal $ot:ty,)+;
        untils: $($ui:literal $ut:ty,)+;
        colls: $($li:literal $lt:ty, $lu:ty, $ls:expr,)+;
        kvs: $($ki:literal $kk:ty, $kv:ty, $ku:ty, $ko:literal,)+;
    ) => {
        fn schema_of(o: &str, i: usize, lt: String) -> (&'static str, String) {
            match o {
                "sc" => ("rd", match i { $($si => $st::schema(),)+ _ => unreachable!() }),
                "ps" => ("pk", match i { $($si => $st::schema(),)+ _ => unreachable!() }),
                "val" => ("rd", match i { $($vi => <$vt>::schema(),)+ _ => unreachable!() }),
                "vec" => ("rd", match i { $($ci => seq::<$ct>(&lt),)+ _ => unreachable!() }),
                "cow" => ("rd", match i { $($oi => seq::<$ot>(&lt),)+ _ => unreachable!() }),
                "vue" | "cue" | "lue" => ("rd", match i { $($ui => seq::<$ut>(EOF),)+ _ => unreachable!() }),
                "col" => ("rd", match i { $($li => $ls(&lt),)+ _ => unreachable!() }),
                "kvc" => ("rd", match i { $($ki => map::<$kk, $kv>(&lt, $ko),)+ _ => unreachable!() }),
                x => unreachable!("{}", x),
            }
        }
        const SC: usize = [$($si),+].len();
        const VA: usize = [$($vi),+].len();
        const VE: usize = [$($ci),+].len();
        const CO: usize = [$($oi),+].len();
        const UN: usize = [$($ui),+].len();
        const CL: usize = [$($li),+].len();
        const KV: usize = [$($ki),+].len();
        fn typed<R: Reader<'static, En>>(op: &Op, reader: &mut R) -> Result<(), Er> {
            let e = reader.endianness();
            match op.o {
                "sc" => match op.i { $($si => { width(std::mem::size_of::<$st>()); out(reader.$sr(), e) })+ _ => unreachable!() },
                "ps" => { match op.i { $($si => { width(std::mem::size_of::<$st>()); let _ = out(reader.$sp(), e); })+ _ => unreachable!() }; Ok(()) }
                "val" => match op.i { $($vi => out(reader.read_value::<$vt>(), e),)+ _ => unreachable!() },
                "vec" => match op.i { $($ci => { width(<$ct as Model>::FLAT.unwrap_or(1)); out(reader.read_vec::<$ct>(op.n), e) })+ _ => unreachable!() },
                "cow" => match op.i { $($oi => { width(<$ot as Model>::FLAT.unwrap_or(1)); out(reader.read_cow::<$ot>(op.n), e) })+ _ => unreachable!() },
                "vue" => match op.i { $($ui => { width(<$ut as Model>::FLAT.unwrap_or(1)); out(reader.read_vec_until_eof::<$ut>(), e) })+ _ => unreachable!() },
                "cue" => match op.i { $($ui => { width(<$ut as Model>::FLAT.unwrap_or(1)); out(reader.read_cow_until_eof::<$ut>(), e) })+ _ => unreachable!() },
                "lue" => match op.i { $($ui => { width(<$ut as Model>::FLAT.unwrap_or(1)); out(reader.read_collection_until_eof::<$ut, Vec<$ut>>(), e) })+ _ => unreachable!() },
                "col" => match op.i { $($li => { width(<$lt as Model>::FLAT.unwrap_or(1)); out(reader.read_collection::<$lt, $lu>(op.n), e) })+ _ => unreachable!() },
                "kvc" => match op.i { $($ki => out(reader.read_key_value_collection::<$kk, $kv, $ku>(op.n), e),)+ _ => unreachable!() },
                x => unreachable!("{}", x),
            }
        }
        /// a value to write: its schema, its JSON, how to write it
        fn gen_wop(r: &mut Rng) -> WOp {
            fn js<T: Model>(v: &T) -> String { let mut s = String::new(); v.val(&mut s); s }
            match r.below(6) {
                0 | 1 => match r.below(SC) { $($si => { let v = $st::gen(r); WOp { t: $st::schema(), v: js(&v), w: Box::new(Wr(v, |w: &mut dyn DynW, v: &$st| w.$sw(*v))) } })+ _ => unreachable!() },
                2 | 3 => match r.below(VA) { $($vi => { let v = <$vt>::gen(r); WOp { t: <$vt>::schema(), v: js(&v), w: Box::new(Wv(v)) } })+ _ => unreachable!() },
                4 => match r.below(VE) { $($ci => { let n = r.len(9); let v: Vec<$ct> = (0..n).map(|_| <$ct>::gen(r)).collect();
                        WOp { t: seq::<$ct>(&Op { o: "", i: 0, n }.lt()), v: js(&v), w: Box::new(Ws(v)) } })+ _ => unreachable!() },
                _ => match r.below(VE) { $($ci => { let n = r.len(9); let v: Vec<$ct> = (0..n).map(|_| <$ct>::gen(r)).collect();
                        WOp { t: seq::<$ct>(&Op { o: "", i: 0, n }.lt()), v: js(&v), w: Box::new(Wc(v)) } })+ _ => unreachable!() },
            }
        }
        trait DynW { $(fn $sw(&mut self, v: $st) -> Result<(), Er>;)+ }
        struct Dw<'w, W: ?Sized>(&'w mut W);
        impl<'w, W: Writer<En> + ?Sized> DynW for Dw<'w, W> { $(fn $sw(&mut self, v: $st) -> Result<(), Er> { self.0.$sw(v) })+ }
        trait AnyWrite {
            fn scalar(&self, _w: &mut dyn DynW) -> Option<Result<(), Er>> { None }
            fn kind(&self) -> WKind;
        }
        struct Wr<T>(T, fn(&mut dyn DynW, &T) -> Result<(), Er>);
        impl<T> AnyWrite for Wr<T> {
            fn scalar(&self, w: &mut dyn DynW) -> Option<Result<(), Er>> { Some((self.1)(w, &self.0)) }
            fn kind(&self) -> WKind { WKind::Scalar }
        }
        struct Wv<T>(T);
        struct Ws<T>(Vec<T>);
        struct Wc<T>(Vec<T>);
        enum WKind<'k> { Scalar, Value(&'k dyn std::any::Any), Slice(&'k dyn std::any::Any), Coll(&'k dyn std::any::Any), Bytes(&'k [u8]), Varint(u64), Query(usize), Endian }
        impl<T: 'static> AnyWrite for Wv<T> { fn kind(&self) -> WKind { WKind::Value(&self.0) } }
        impl<T: 'static> AnyWrite for Ws<T> { fn kind(&self) -> WKind { WKind::Slice(&self.0) } }
        impl<T: 'static> AnyWrite for Wc<T> { fn kind(&self) -> WKind { WKind::Coll(&self.0) } }
        fn write_any<W: Writer<En> + ?Sized>(op: &WOp, w: &mut W) -> Result<(), Er> {
            if let Some(r) = op.w.scalar(&mut Dw(w)) { return r; }
            match op.w.kind() {
                WKind::Scalar => unreachable!(),
                WKind::Value(v) => { $( if let Some(v) = v.downcast_ref::<$vt>() { return w.write_value(v); } )+ unreachable!() }
                WKind::Slice(v) => { $( if let Some(v) = v.downcast_ref::<Vec<$ct>>() { return w.write_slice(v); } )+ unreachable!() }
                WKind::Coll(v) => { $( if let Some(v) = v.downcast_ref::<Vec<$ct>>() { return w.write_collection(v.iter()); } )+ unreachable!() }
                WKind::Bytes(b) => w.write_bytes(b),
                WKind::Varint(x) => w.write_u64_varint(x),
                WKind::Query(n) => {
                    let a = match w.can_write_at_least(n) { None => 2, Some(true) => 1, Some(false) => 0 };
                    WQ.with(|q| q.borrow_mut().push([n.min(1 << 30) as i64, a]));
                    Ok(())
                }
                WKind::Endian => {
                    let a = if w.endianness() == En::LittleEndian { 0 } else { 1 };
                    WQ.with(|q| q.borrow_mut().push([-1, a]));
                    Ok(())
                }
            }
        }
    };
}
struct WOp { t: String, v: String, w: Box<dyn AnyWrite> }
struct Wb(Vec<u8>);
impl AnyWrite for Wb { fn kind(&self) -> WKind { WKind::Bytes(&self.0) } }
struct Wx(u64);
impl AnyWrite for Wx { fn kind(&self) -> WKind { WKind::Varint(self.0) } }
struct Wq(usize);
impl AnyWrite for Wq { fn kind(&self) -> WKind { WKind::Query(self.0) } }
struct We;
impl AnyWrite for We { fn kind(&self) -> WKind { WKind::Endian } }
type F32 = f32; type F64 = f64;
kinds! {
    scalars: 0 u8 read_u8 peek_u8 write_u8, 1 i8 read_i8 peek_i8 write_i8, 2 u16 read_u16 peek_u16 write_u16, 3 i16 read_i16 peek_i16 write_i16,
        4 u32 read_u32 peek_u32 write_u32, 5 i32 read_i32 peek_i32 write_i32, 6 u64 read_u64 peek_u64 write_u64, 7 i64 read_i64 peek_i64 write_i64,
        8 u128 read_u128 peek_u128 write_u128, 9 i128 read_i128 peek_i128 write_i128, 10 F32 read_f32 peek_f32 write_f32, 11 F64 read_f64 peek_f64 write_f64,;
    values: 0 String, 1 Vec<u16>, 2 Vec<(u8, u16)>, 3 Option<u32>, 4 (u8, u32), 5 [u16; 3], 6 bool, 7 char, 8 BTreeMap<u8, u16>, 9 Cow<'static, [u32]>,
        10 Cow<'static, str>, 11 NonZeroU16, 12 Vec<String>, 13 Duration, 14 Result<u8, u16>, 15 Peeky, 16 Lens, 17 u128, 18 f32, 19 Vec<bool>,
        20 HashSet<u16>, 21 Box<[u64]>, 22 [u8; 4], 23 Option<Vec<u8>>, 24 &'static [u8], 25 &'static str, 26 (), 27 HashMap<u16, Vec<u8>>,
        28 u16, 29 usize, 30 std::net::IpAddr,;
    vecs: 0 u8, 1 u16, 2 u32, 3 u64, 4 f64, 5 bool, 6 (u8, u16), 7 String, 8 char, 9 u128, 10 i8, 11 [u16; 2], 12 Option<u8>, 13 (u8, u8), 14 NonZeroU16,;
    cows: 0 u8, 1 u16, 2 u32, 3 u64, 4 f32, 5 bool, 6 [u16; 2], 7 i8,;
    untils: 0 u8, 1 u16, 2 char, 3 bool, 4 (u8, u16), 5 u32, 6 Option<u8>,;
    colls: 0 u8, Vec<u8>, |lt: &str| seq::<u8>(lt), 1 u16, Vec<u16>, |lt: &str| seq::<u16>(lt), 2 u32, BTreeSet<u32>, |lt: &str| set::<u32>(lt, "sorted"),
        3 bool, Vec<bool>, |lt: &str| seq::<bool>(lt), 4 u64, HashSet<u64>, |lt: &str| set::<u64>(lt, "any"), 5 (u8, u16), Vec<(u8, u16)>, |lt: &str| seq::<(u8, u16)>(lt),
        6 char, BTreeSet<char>, |lt: &str| set::<char>(lt, "sorted"), 7 i8, Vec<i8>, |lt: &str| seq::<i8>(lt),;
    kvs: 0 u8, u8, BTreeMap<u8, u8>, "sorted", 1 u8, u16, BTreeMap<u8, u16>, "sorted", 2 u32, u16, HashMap<u32, u16>, "any", 3 u16, bool, BTreeMap<u16, bool>, "sorted",
        4 u64, u32, BTreeMap<u64, u32>, "sorted",;
}

// ------------------------------------------------------------------ reading
struct Script;
impl<'a> Readable<'a, En> for Script where 'a: 'static {
    fn read_from<R: Reader<'a, En>>(reader: &mut R) -> Result<Self, Er> {
        // 'a is 'static for the modes that can borrow; the copying ones never hand out data
        let ops = OPS.with(|o| o.borrow().clone());
        for op in &ops { step(op, reader)?; }
        Ok(Script)
    }
}
fn base() -> (usize, usize) { INPUT.with(|i| *i.borrow()) }
fn step<R: Reader<'static, En>>(op: &Op, reader: &mut R) -> Result<(), Er> {
    tick();
    let fail = |x: Er| -> Result<(), Er> { bad(&x); Err(x) };
    match op.o {
        "rb" | "pb" => {
            let mut b = vec![0x99u8; op.n];
            let r = if op.o == "rb" { reader.read_bytes(&mut b) } else { reader.peek_bytes(&mut b) };
            match r {
                Ok(()) => ok_bytes(&b),
                Err(x) if op.o == "pb" => bad(&x),
                Err(x) => return fail(x),
            }
        }
        "sk" => match reader.skip_bytes(op.n) { Ok(()) => ok("0"), Err(x) => return fail(x) },
        "cr" => ok(match reader.can_read_at_least(op.n) { None => "2", Some(true) => "1", Some(false) => "0" }),
        "bb" | "bu" => {
            let (r, lo) = if op.o == "bb" { (reader.read_bytes_borrowed(op.n), op.n) } else { (reader.read_bytes_borrowed_until_eof().map(Ok), 0) };
            match r {
                None => push("{\"s\":\"none\",\"c\":\"\",\"v\":0}".into()),
                Some(Ok(b)) => {
                    let (p, n) = base();
                    let a = b.as_ptr() as usize;
                    let inside = a >= p && a + b.len() <= p + n;
                    let mut s = String::new();
                    if PATTERN.with(|p| *p.borrow()) { s = runs(b) } else { jbytes(&mut s, b) }
                    push(format!("{{\"s\":\"ok\",\"c\":\"\",\"v\":{},\"off\":{}}}", s, if inside { (a - p) as i64 } else { -1 }));
                    let _ = lo;
                }
                Some(Err(x)) => return fail(x),
            }
        }
        "bf" => match reader.read_bytes_borrowed_from_reader(op.n) {
            None => push("{\"s\":\"none\",\"c\":\"\",\"v\":0}".into()),
            Some(Ok(b)) => ok_bytes(b),
            Some(Err(x)) => return fail(x),
        },
        "ge" => ok(if reader.endianness() == En::LittleEndian && reader.context().endianness() == En::LittleEndian { "0" } else { "1" }),
        "se" => { *reader.context_mut() = if op.n == 0 { En::LittleEndian } else { En::BigEndian }; ok("0") }
        "rv" | "pv" => {
            let r = if op.o == "rv" { reader.read_u64_varint() } else { reader.peek_u64_varint() };
            match r {
                Ok(v) => { let mut s = String::new(); jbytes(&mut s, &v.to_le_bytes()); ok(&s) }
                Err(x) if op.o == "pv" => bad(&x),
                Err(x) => return fail(x),
            }
        }
        "str" => { width(1);
            match reader.read_string(op.n) {
                Ok(s) => ok_bytes(s.as_bytes()),
                Err(x) => return fail(x),
            }
        }
        _ => return typed(op, reader),
    }
    Ok(())
}

fn gen_ops(r: &mut Rng, k: usize, focus: &str) -> Vec<Op> {
    let mut v: Vec<Op> = Vec::new();
    for _ in 0..k {
        let n = if r.chance(1, 3) { r.below(3) } else if r.chance(3, 4) { r.below(7) } else { r.below(30) };
        let x = if focus == "peek" { [0, 0, 0, 1, 1, 1, 2, 3, 3, 4, 5, 6, 7, 17, 17][r.below(15)] } else { r.below(20) };
        let op = match x {
            0 => Op { o: "sc", i: r.below(SC), n: 0 },
            1 => Op { o: "ps", i: r.below(SC), n: 0 },
            2 => Op { o: "rb", i: 0, n },
            3 => Op { o: "pb", i: 0, n },
            4 => Op { o: "rv", i: 0, n: 0 },
            5 => Op { o: "pv", i: 0, n: 0 },
            6 => if r.chance(1, 2) { Op { o: "sk", i: 0, n } } else { Op { o: "cr", i: 0, n: if r.chance(1, 8) { usize::MAX } else { n } } },
            7 => if r.chance(2, 3) { Op { o: "se", i: 0, n: r.below(2) } } else { Op { o: "ge", i: 0, n: 0 } },
            8 => Op { o: "bb", i: 0, n: if r.chance(1, 10) { usize::MAX - r.below(3) } else { n } },
            9 => Op { o: "bf", i: 0, n: if r.chance(1, 10) { usize::MAX - r.below(3) } else { n } },
            10 => if r.chance(1, 3) { Op { o: "bu", i: 0, n: 0 } } else { Op { o: "cr", i: 0, n } },
            11 => Op { o: "vec", i: r.below(VE), n: if r.chance(1, 14) { huge(r) } else { n % 9 } },
            12 => Op { o: "cow", i: r.below(CO), n: if r.chance(1, 14) { huge(r) } else { n % 9 } },
            13 => Op { o: "str", i: 0, n: if r.chance(1, 14) { huge(r) } else { n % 5 } },
            14 => Op { o: "col", i: r.below(CL), n: if r.chance(1, 14) { huge(r) } else { n % 9 } },
            15 => Op { o: "kvc", i: r.below(KV), n: if r.chance(1, 14) { huge(r) } else { n % 5 } },
            16 => if r.chance(1, 4) { Op { o: *r.pick(&["vue", "cue", "lue"]), i: r.below(UN), n: 0 } } else { Op { o: "val", i: r.below(VA), n: 0 } },
            17 => {
                // the same thing, peeked and read
                let i = r.below(SC);
                if r.chance(1, 2) { v.push(Op { o: "ps", i, n: 0 }); Op { o: "sc", i, n: 0 } }
                else if r.chance(1, 2) { v.push(Op { o: "pv", i: 0, n: 0 }); Op { o: "rv", i: 0, n: 0 } }
                else { v.push(Op { o: "pb", i: 0, n }); Op { o: "rb", i: 0, n } }
            }
            _ => Op { o: "val", i: r.below(VA), n: 0 },
        };
        v.push(op);
    }
    v
}
fn huge(r: &mut Rng) -> usize {
    *r.pick(&[usize::MAX, usize::MAX / 2 + 1, 1 << 62, 1 << 61, (1 << 61) + 1, 1 << 60, 0x5555555555555556, (1 << 40) + 3, 1 << 33, usize::MAX / 3 + 1])
}
/// Bytes that make scripts get somewhere: small numbers, with some structure.
fn gen_input(r: &mut Rng) -> Vec<u8> {
    let n = r.below(90);
    (0..n).map(|_| match r.below(10) { 0 | 1 | 2 => 0, 3 => 1, 4 => 2, 5 => r.below(8) as u8, 6 => b'a' + r.below(26) as u8, 7 => 0xC0 + r.below(64) as u8, _ => r.next() as u8 }).collect()
}
/// Input that suits the operations: what they would need, with a mistake now and then.
fn fit_input(r: &mut Rng, ops: &[Op]) -> Vec<u8> {
    let mut b = Vec::new();
    let mut e = En::LittleEndian;
    fn w<T: Writable<En> + Model>(b: &mut Vec<u8>, e: En, r: &mut Rng) {
        for _ in 0..5 {
            if let Ok(x) = T::gen(r).write_to_vec_with_ctx(e) { if x.len() < 40 { b.extend(x); return; } }
        }
    }
    for op in ops {
        let k = op.n.min(12);
        match op.o {
            "se" => e = if op.n == 0 { En::LittleEndian } else { En::BigEndian },
            "val" => match op.i {
                0 | 10 | 25 => w::<String>(&mut b, e, r), 1 => w::<Vec<u16>>(&mut b, e, r), 2 => w::<Vec<(u8, u16)>>(&mut b, e, r), 3 => w::<Option<u32>>(&mut b, e, r),
                7 => w::<char>(&mut b, e, r), 8 => w::<BTreeMap<u8, u16>>(&mut b, e, r), 9 => w::<Vec<u32>>(&mut b, e, r), 12 => w::<Vec<String>>(&mut b, e, r),
                13 => w::<Duration>(&mut b, e, r), 15 => w::<Peeky>(&mut b, e, r), 16 => w::<Lens>(&mut b, e, r), 19 => w::<Vec<bool>>(&mut b, e, r),
                20 => w::<HashSet<u16>>(&mut b, e, r), 21 => w::<Box<[u64]>>(&mut b, e, r), 23 => w::<Option<Vec<u8>>>(&mut b, e, r), 24 => w::<Vec<u8>>(&mut b, e, r),
                27 => w::<HashMap<u16, Vec<u8>>>(&mut b, e, r), 30 => w::<std::net::IpAddr>(&mut b, e, r),
                _ => w::<u64>(&mut b, e, r),
            },
            "str" => for _ in 0..k { b.push(b'a' + r.below(26) as u8) },
            "vec" => for _ in 0..k { match op.i { 7 => w::<String>(&mut b, e, r), 8 => w::<char>(&mut b, e, r), 14 => w::<NonZeroU16>(&mut b, e, r), 5 => w::<bool>(&mut b, e, r), _ => w::<u32>(&mut b, e, r) } },
            "col" => for _ in 0..k { match op.i { 6 => w::<char>(&mut b, e, r), _ => w::<u32>(&mut b, e, r) } },
            "rv" => { let x = r.next() >> r.below(64); let mut t = vec![]; struct V(u64); impl Writable<En> for V { fn write_to<T: ?Sized + Writer<En>>(&self, w: &mut T) -> Result<(), Er> { w.write_u64_varint(self.0) } } t.extend(V(x).write_to_vec_with_ctx(e).unwrap()); b.extend(t) }
            "ps" | "pb" | "pv" | "ge" | "cr" => {}
            _ => for _ in 0..k.max(1) { b.push(r.next() as u8) },
        }
    }
    if r.chance(1, 3) && !b.is_empty() { let i = r.below(b.len()); b[i] = r.next() as u8; }
    if r.chance(1, 3) && !b.is_empty() { let n = r.below(b.len()); b.truncate(n); }
    for _ in 0..r.below(4) { b.push(r.next() as u8) }
    b.truncate(400);
    b
}

const MODES: [&str; 6] = ["zc", "cp", "cm", "su", "sb", "file"];
struct Run { ms: Vec<String>, outs: Vec<String>, n: i64, s: String }
fn perform(m: &str, e: En, input: &'static [u8], sched: &Sched, file: &std::path::Path) -> Run {
    OUTS.with(|o| o.borrow_mut().clear());
    INPUT.with(|i| *i.borrow_mut() = (input.as_ptr() as usize, input.len()));
    let mut n = -1i64;
    let r = catch_unwind(AssertUnwindSafe(|| match m {
        "zc" => { let (r, k) = Script::read_with_length_from_buffer_with_ctx(e, input); n = k as i64; r.is_ok() }
        "cp" => { let (r, k) = Script::read_with_length_from_buffer_copying_data_with_ctx(e, input); n = k as i64; r.is_ok() }
        "cm" => { let mut e = e; let (r, k) = Script::read_with_length_from_buffer_copying_data_with_ctx_mut(&mut e, input); n = k as i64; r.is_ok() }
        "file" => { if file.exists() || true { std::fs::write(file, input).unwrap(); } Script::read_from_file_with_ctx(e, file).is_ok() }
        _ => {
            let mut src = Source::new(input, sched);
            let r = if m == "su" { Script::read_from_stream_unbuffered_with_ctx(e, &mut src) } else { Script::read_from_stream_buffered_with_ctx(e, &mut src) };
            if m == "su" { n = src.taken as i64; }
            r.is_ok()
        }
    }));
    let s = match r { Ok(true) => "ok", Ok(false) => "err", Err(_) => "panic" };
    Run { ms: vec![m.to_string()], outs: OUTS.with(|o| o.borrow().clone()), n, s: s.into() }
}
fn all_runs(r: &mut Rng, e: En, input: &'static [u8], file: &std::path::Path, scheds: &[(String, Sched)]) -> String {
    let mut v: Vec<Run> = Vec::new();
    for (m, sched) in scheds {
        let x = perform(m, e, input, sched, file);
        if let Some(y) = v.iter_mut().find(|y| y.outs == x.outs && y.n == x.n && y.s == x.s && (y.ms[0] == "zc") == (m == "zc") && (y.ms[0] == "su") == (m == "su")) { y.ms.push(m.clone()); } else { v.push(x); }
    }
    let _ = r;
    let s: Vec<String> = v.iter().map(|x| format!("{{\"ms\":[{}],\"n\":{},\"s\":\"{}\",\"outs\":[{}]}}",
        x.ms.iter().map(|m| jstr(m)).collect::<Vec<_>>().join(","), x.n, x.s, x.outs.join(","))).collect();
    format!("[{}]", s.join(","))
}

// ------------------------------------------------------------------ writing
struct WScript;
impl Writable<En> for WScript {
    fn write_to<W: ?Sized + Writer<En>>(&self, w: &mut W) -> Result<(), Er> {
        // what counts are the answers of the last pass; the size is counted in one of its own
        WQ.with(|q| q.borrow_mut().clear());
        WOPS.with(|o| { for op in o.borrow().iter() { write_any(op, w)?; } Ok(()) })
    }
}
fn ws(r: &mut Rng, id: u64, e: En, file: &std::path::Path) -> String {
    let k = 1 + r.below(10);
    let mut ops = Vec::new();
    for _ in 0..k {
        ops.push(match r.below(12) {
            0 => { let n = r.below(12); let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect(); let mut s = String::new(); jbytes(&mut s, &b); WOp { t: format!("{{\"k\":\"raw\",\"n\":{}}}", n), v: s, w: Box::new(Wb(b)) } }
            1 => { let x = r.next() >> r.below(64); let mut s = String::new(); jbytes(&mut s, &x.to_le_bytes()); WOp { t: "{\"k\":\"varint\"}".into(), v: s, w: Box::new(Wx(x)) } }
            2 => WOp { t: "{\"k\":\"unit\"}".into(), v: "[]".into(), w: Box::new(Wq(if r.chance(1, 6) { usize::MAX - r.below(4) } else { r.below(60) })) },
            _ => gen_wop(r),
        });
    }
    let js: Vec<String> = ops.iter().map(|o| format!("{{\"q\":{},\"t\":{},\"v\":{}}}", matches!(o.w.kind(), WKind::Query(_)), o.t, o.v)).collect();
    WOPS.with(|o| *o.borrow_mut() = ops);
    let mut runs = Vec::new();
    let need = catch_unwind(AssertUnwindSafe(|| <WScript as Writable<En>>::bytes_needed(&WScript))).ok().and_then(|x| x.ok()).map(|x| x as i64).unwrap_or(-1);
    let extra = r.below(20);
    for m in ["vec", "vecmut", "buf", "bufmut", "stream", "stream1", "file"] {
        WQ.with(|q| q.borrow_mut().clear());
        let mut outb: Vec<u8> = Vec::new();
        let mut room = -1i64;
        let res = catch_unwind(AssertUnwindSafe(|| match m {
            "vec" => WScript.write_to_vec_with_ctx(e).map(|b| outb = b),
            "vecmut" => { let mut e = e; WScript.write_to_vec_with_ctx_mut(&mut e).map(|b| outb = b) }
            "buf" | "bufmut" => {
                let z = need.max(0) as usize + if m == "buf" { 0 } else { extra };
                let mut b = vec![0xEE; z];
                let r = if m == "buf" { WScript.write_to_buffer_with_ctx(e, &mut b) } else { let mut e = e; WScript.write_to_buffer_with_ctx_mut(&mut e, &mut b) };
                b.truncate(need.max(0) as usize);
                outb = b;
                r
            }
            "file" => WScript.write_to_file_with_ctx(e, file).map(|_| outb = std::fs::read(file).unwrap()),
            _ => {
                let mut s = Sink::new(&if m == "stream" { Sched::All } else { Sched::random(r) });
                let x = WScript.write_to_stream_with_ctx(e, &mut s);
                outb = s.data;
                x
            }
        }));
        let (s, c) = match &res { Ok(Ok(())) => ("ok", String::new()), Ok(Err(x)) => ("err", class(x)), Err(_) => ("panic", "panic".into()) };
        let mut b = String::new();
        jbytes(&mut b, &outb);
        let q: Vec<String> = WQ.with(|q| q.borrow().iter().map(|x| format!("[{},{}]", x[0], x[1])).collect());
        // buffers and vectors know how much room there is: as much as announced
        if ["vec", "vecmut", "buf", "bufmut"].contains(&m) { room = need; }
        runs.push(format!("{{\"m\":\"{}\",\"s\":\"{}\",\"c\":{},\"b\":{},\"q\":[{}],\"room\":{}}}", m, s, jstr(&c), b, q.join(","), room));
    }
    format!("{{\"k\":\"ws\",\"id\":{},\"t\":1,\"e\":\"{}\",\"need\":{},\"ops\":[{}],\"runs\":[{}]}}", id, es(e), need, js.join(","), runs.join(","))
}

// ------------------------------------------------------------------ pattern sessions
/// Operations as in "rb:5 pb:3 ..."; n counts bytes (or elements)
fn parse_ops(s: &str) -> Vec<Op> {
    s.split(' ').filter(|x| !x.is_empty()).map(|x| {
        let p: Vec<&str> = x.split(':').collect();
        let o = ["rb", "pb", "sk", "vec", "cow", "col", "str", "vue", "sc", "ps"].iter().find(|y| **y == p[0]).unwrap();
        Op { o: *o, i: p[1].parse().unwrap(), n: p[2].parse().unwrap() }
    }).collect()
}
fn pattern_json(ops: &[Op]) -> String {
    const W: [usize; 16] = [1, 2, 4, 8, 8, 1, 3, 0, 0, 16, 1, 4, 0, 2, 0, 0];
    const SW: [usize; 12] = [1, 1, 2, 2, 4, 4, 8, 8, 16, 16, 4, 8];
    const CW: [usize; 8] = [1, 2, 4, 8, 4, 1, 4, 1];
    const LW: [usize; 8] = [1, 2, 4, 1, 8, 3, 0, 1];
    let v: Vec<String> = ops.iter().map(|o| {
        let (k, n) = match o.o {
            "rb" | "sk" | "str" => (o.o, o.n),
            "pb" => ("pb", o.n),
            "vec" => ("rb", o.n.saturating_mul(W[o.i])),
            "cow" => ("rb", o.n.saturating_mul(CW[o.i])),
            "col" => ("rb", o.n.saturating_mul(LW[o.i])),
            "sc" => ("rb", SW[o.i]),
            "ps" => ("pb", SW[o.i]),
            "vue" => ("ue", 1),
            _ => unreachable!(),
        };
        format!("{{\"o\":\"{}\",\"n\":{}}}", if k == "str" { "rb" } else { k }, n.min(1 << 30))
    }).collect();
    format!("[{}]", v.join(","))
}
fn gen_big_ops(r: &mut Rng) -> Vec<Op> {
    let k = 2 + r.below(9);
    let size = |r: &mut Rng| -> usize {
        match r.below(9) {
            0 => r.below(20), 1 => r.below(300), 2 => 8192usize.wrapping_add(r.below(5)).wrapping_sub(2), 3 => 8192 / (1 + r.below(4)), 4 => r.below(9000),
            5 => 16384 + r.below(3) - 1, 6 => 4096 + r.below(5), 7 => 8000 + r.below(200), _ => 1 + r.below(3000),
        }
    };
    let mut v = Vec::new();
    for _ in 0..k {
        let n = size(r);
        v.push(match r.below(12) {
            0 | 1 => Op { o: "rb", i: 0, n }, 2 | 3 => Op { o: "pb", i: 0, n }, 4 => Op { o: "sk", i: 0, n },
            5 => { let i = *r.pick(&[0usize, 1, 2, 3, 4, 9, 10, 13]); let big = r.chance(1, 5); Op { o: "vec", i, n: if big { 65536 / [1, 2, 4, 8, 8, 1, 1, 1, 1, 16, 1, 1, 1, 2][i] + r.below(4) } else { n / 4 } } }
            6 => Op { o: "cow", i: r.below(4), n: n / 3 }, 7 => Op { o: "col", i: *r.pick(&[0usize, 1]), n: n / 2 },
            8 => Op { o: "str", i: 0, n }, 9 | 10 => Op { o: "sc", i: *r.pick(&[0usize, 2, 4, 6, 8]), n: 0 }, _ => Op { o: "ps", i: *r.pick(&[0usize, 2, 4, 6, 8]), n: 0 },
        });
    }
    if r.chance(1, 6) { v.push(Op { o: "vue", i: *r.pick(&[0usize, 0]), n: 0 }); }
    v
}

/// The public functions of a byte order: numbers read from bytes, numbers and slices of numbers converted in place.
fn rbytes(r: &mut Rng, n: usize) -> Vec<u8> { (0..n).map(|_| r.next() as u8).collect() }
fn jb(b: &[u8]) -> String { let mut s = String::new(); jbytes(&mut s, b); s }
fn helpers(r: &mut Rng, e: En) -> String {
    let mut out: Vec<String> = Vec::new();
    let mut one = |r: &mut Rng, out: &mut Vec<String>, w: usize, ty: &str, what: &str, inp: &[u8], f: &mut dyn FnMut(&[u8]) -> Vec<u8>| {
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(inp)));
        let _ = &r;
        out.push(format!("{{\"w\":{},\"ty\":\"{}\",\"op\":\"{}\",\"in\":{},\"s\":\"{}\",\"out\":{}}}", w, ty, what, jb(inp), if res.is_ok() { "ok" } else { "panic" }, jb(&res.unwrap_or_default())));
    };
    macro_rules! ty {
        ($t:ident, $read:ident, $swap:ident, $slice:ident) => {{
            let w = std::mem::size_of::<$t>();
            let n = if r.chance(1, 4) { r.below(2 * w + 2) } else { w };
            let b = rbytes(r, n);
            one(r, &mut out, w, stringify!($t), "read", &b, &mut |x| e.$read(x).to_le_bytes().to_vec());
            let b = rbytes(r, w);
            one(r, &mut out, w, stringify!($t), "swap", &b, &mut |x| { let mut v = $t::from_le_bytes(x.try_into().unwrap()); e.$swap(&mut v); v.to_le_bytes().to_vec() });
            let n = r.below(6);
            let b = rbytes(r, w * n);
            one(r, &mut out, w, stringify!($t), "slice", &b, &mut |x| {
                let mut v: Vec<$t> = x.chunks(w).map(|y| $t::from_le_bytes(y.try_into().unwrap())).collect();
                e.$slice(&mut v);
                v.iter().flat_map(|y| y.to_le_bytes()).collect()
            });
        }};
    }
    ty!(u16, read_u16, swap_u16, swap_slice_u16);
    ty!(u32, read_u32, swap_u32, swap_slice_u32);
    ty!(u64, read_u64, swap_u64, swap_slice_u64);
    ty!(u128, read_u128, swap_u128, swap_slice_u128);
    ty!(i16, read_i16, swap_i16, swap_slice_i16);
    ty!(i32, read_i32, swap_i32, swap_slice_i32);
    ty!(i64, read_i64, swap_i64, swap_slice_i64);
    ty!(i128, read_i128, swap_i128, swap_slice_i128);
    ty!(f32, read_f32, swap_f32, swap_slice_f32);
    ty!(f64, read_f64, swap_f64, swap_slice_f64);
    for signed in [false, true] {
        let n = r.below(6);
        let b = rbytes(r, n);
        one(r, &mut out, 1, if signed { "i8" } else { "u8" }, "slice", &b, &mut |x| {
            if signed {
                let mut v: Vec<i8> = x.iter().map(|&y| y as i8).collect();
                e.swap_slice_i8(&mut v);
                v.iter().map(|&y| y as u8).collect()
            } else { let mut v = x.to_vec(); e.swap_slice_u8(&mut v); v }
        });
    }
    out.join(",")
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a = Args::get();
    if a.str("cmd") == Some("types") { println!("[]"); return; }
    let job = a.str("job").unwrap().to_string();
    let dir = std::path::PathBuf::from(a.str("dir").unwrap());
    std::fs::create_dir_all(&dir).unwrap();
    let file = dir.join("s");
    let (shard, shards, skip) = (a.num("shard", 0), a.num("shards", 1), a.num("skip", 0));
    let only = a.str("only").map(|x| x.parse::<u64>().unwrap());
    let mut outf = std::io::BufWriter::new(std::fs::OpenOptions::new().create(true).append(true).open(a.str("out").unwrap()).unwrap());
    let mut pend = harness::jobs::Pending::new(dir.join("pending").to_str().unwrap());
    let mut arena = Arena::new(1 << 22);
    let seed = a.num("seed", 1);
    let focus = a.str("focus").unwrap_or("").to_string();
    watchdog(a.num("watch", 30));
    set_alloc_limit(1 << 30);
    let scripts: Vec<String> = match a.str("scripts") { Some(f) => std::fs::read_to_string(f).unwrap().lines().map(|x| x.to_string()).collect(), None => vec![] };
    let total = if job == "ring" { scripts.len() as u64 } else { a.num("n", 10) };
    for id in 1..=total {
        if id % shards != shard || id <= skip || only.map_or(false, |o| o != id) { continue; }
        next_case();
        let mut r = Rng::new(seed.wrapping_mul(7368787) ^ hash_str(&job) ^ hash_str(&focus) ^ (id << 20));
        let e = if r.chance(1, 2) { En::LittleEndian } else { En::BigEndian };
        let mut rec = String::new();
        PATTERN.with(|p| *p.borrow_mut() = false);
        match job.as_str() {
            "rs" => {
                let k = 1 + r.below(9);
                let ops = gen_ops(&mut r, k, &focus);
                let bytes = if r.chance(1, 3) { gen_input(&mut r) } else { fit_input(&mut r, &ops) };
                let align = if r.chance(1, 3) { -1 } else { r.below(16) as isize };
                let input = arena.place(&bytes, align);
                let al = input.as_ptr() as usize % 16;
                OPS.with(|o| *o.borrow_mut() = ops.clone());
                let js: Vec<String> = ops.iter().map(|o| o.json()).collect();
                let mut ib = String::new();
                jbytes(&mut ib, input);
                pend.set(&format!("{{\"k\":\"crash\",\"id\":{},\"t\":1,\"e\":\"{}\",\"job\":\"rs\",\"in\":{},\"ops\":[{}]}}", id, es(e), ib, js.join(",")));
                let mut sch: Vec<(String, Sched)> = MODES.iter().map(|m| (m.to_string(), Sched::All)).collect();
                for m in ["su", "sb"] { for _ in 0..2 { sch.push((m.into(), Sched::random(&mut r))); } }
                let runs = all_runs(&mut r, e, input, &file, &sch);
                rec = format!("{{\"k\":\"rs\",\"id\":{},\"t\":1,\"e\":\"{}\",\"in\":{},\"al\":{},\"ops\":[{}],\"runs\":{}}}", id, es(e), ib, al, js.join(","), runs);
            }
            "ws" => {
                pend.set(&format!("{{\"k\":\"crash\",\"id\":{},\"t\":1,\"e\":\"{}\",\"job\":\"ws\"}}", id, es(e)));
                rec = ws(&mut r, id, e, &file);
            }
            "bs" | "ring" => {
                let (ops, n, mut sch): (Vec<Op>, usize, Vec<(String, Sched)>) = if job == "ring" {
                    // ops | source length | source steps
                    let p: Vec<&str> = scripts[id as usize - 1].split('|').collect();
                    let steps: Vec<usize> = p[2].split(' ').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
                    (parse_ops(p[0]), p[1].trim().parse().unwrap(), vec![("sb".into(), Sched::Steps(steps.iter().copied().chain([1 << 20]).collect()))])
                } else {
                    let ops = gen_big_ops(&mut r);
                    let n = match r.below(5) { 0 => r.below(9000), 1 => r.below(30000), 2 => 8192 + r.below(3), _ => 20000 + r.below(90000) };
                    let mut s = vec![("sb".to_string(), Sched::All), ("su".into(), Sched::All), ("cp".into(), Sched::All), ("zc".into(), Sched::All)];
                    for _ in 0..3 {
                        s.push(("sb".into(), match r.below(6) { 0 => Sched::Fixed(8192), 1 => Sched::Fixed(8191), 2 => Sched::Fixed(4096 + r.below(3)), 3 => Sched::Fixed(1 + r.below(700)),
                            4 => Sched::Random { seed: r.next(), max: 9000, intr: 1 }, _ => Sched::Random { seed: r.next(), max: 60, intr: 1 } }));
                    }
                    s.push(("su".into(), Sched::Random { seed: r.next(), max: 5000, intr: 1 }));
                    (ops, n, s)
                };
                let bytes: Vec<u8> = (0..n).map(|i| (i % MOD) as u8).collect();
                let input = arena.place(&bytes, r.below(16) as isize);
                OPS.with(|o| *o.borrow_mut() = ops.clone());
                let js = pattern_json(&ops);
                pend.set(&format!("{{\"k\":\"crash\",\"id\":{},\"t\":1,\"e\":\"{}\",\"job\":\"{}\",\"n\":{},\"ops\":{}}}", id, es(e), job, n, js));
                PATTERN.with(|p| *p.borrow_mut() = true);
                if job == "ring" { sch.push(("su".into(), sch[0].1.clone())); }
                let runs = all_runs(&mut r, e, input, &file, &sch);
                rec = format!("{{\"k\":\"bs\",\"id\":{},\"t\":1,\"e\":\"{}\",\"n\":{},\"ops\":{},\"raw\":{},\"runs\":{}}}", id, es(e), n, js,
                              jstr(&ops.iter().map(|o| format!("{}:{}:{}", o.o, o.i, o.n)).collect::<Vec<_>>().join(" ")), runs);
            }
            "en" => {
                pend.set(&format!("{{\"k\":\"crash\",\"id\":{},\"t\":1,\"e\":\"{}\",\"job\":\"en\"}}", id, es(e)));
                rec = format!("{{\"k\":\"en\",\"id\":{},\"t\":1,\"e\":\"{}\",\"native\":\"{}\",\"necessary\":{},\"runs\":[{}]}}", id, es(e), es(En::NATIVE), e.conversion_necessary(), helpers(&mut r, e));
            }
            j => panic!("unknown job {}", j),
        }
        outf.write_all(rec.as_bytes()).unwrap();
        outf.write_all(b"\n").unwrap();
        outf.flush().unwrap();
    }
    pend.set("{}");
}
