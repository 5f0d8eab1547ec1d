//! Every public entry point for reading and writing, behind function pointers per type.
use crate::model::*;
use crate::util::*;
use speedy::{BigEndian, Context, Endianness, IsEof, LittleEndian, Readable, Writable};
use std::any::Any;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

#[derive(Copy, Clone, PartialEq, Debug)]
pub enum E { Le, Be }
impl E {
    pub fn s(self) -> &'static str { if self == E::Le { "le" } else { "be" } }
    pub fn end(self) -> Endianness { if self == E::Le { Endianness::LittleEndian } else { Endianness::BigEndian } }
    pub const BOTH: [E; 2] = [E::Le, E::Be];
}
pub trait Ctx: Context {
    fn mk(e: E) -> Self;
    /// called with the caller's context after an operation that borrowed it
    fn fin(&self) {}
}
/// errors of contexts
pub trait ErrLike: Sized {
    fn class(&self) -> String;
    fn eof(&self) -> bool;
    fn speedy(&self) -> Option<&speedy::Error>;
    fn payload(&self) -> i64;
    fn into_io(self) -> std::io::Error;
    fn told(self) -> (bool, std::io::Error) { (true, self.into_io()) }
    /// actual and expected size, if it is about these
    fn sizes(&self) -> (i64, i64) { (-1, -1) }
}
#[cfg(feature = "std")]
fn io_source(e: &speedy::Error) -> Option<&std::io::Error> { std::error::Error::source(e).and_then(|s| s.downcast_ref()) }
#[cfg(not(feature = "std"))]
fn io_source(_: &speedy::Error) -> Option<&std::io::Error> { None }
impl ErrLike for speedy::Error {
    fn told(self) -> (bool, std::io::Error) { told(self) }
    fn sizes(&self) -> (i64, i64) { sizes(self) }
    fn class(&self) -> String { class(self) }
    fn eof(&self) -> bool { self.is_eof() }
    fn speedy(&self) -> Option<&speedy::Error> { Some(self) }
    fn payload(&self) -> i64 {
        io_source(self).map_or(-1, payload)
    }
    #[cfg(feature = "std")]
    fn into_io(self) -> std::io::Error { self.into() }
    #[cfg(not(feature = "std"))]
    fn into_io(self) -> std::io::Error {
        (if self.is_eof() { std::io::ErrorKind::UnexpectedEof } else { std::io::ErrorKind::InvalidData }).into()
    }
}
impl Ctx for Endianness { fn mk(e: E) -> Self { e.end() } }
impl Ctx for LittleEndian { fn mk(e: E) -> Self { assert!(e == E::Le); LittleEndian {} } }
impl Ctx for BigEndian { fn mk(e: E) -> Self { assert!(e == E::Be); BigEndian {} } }

/// Reading entry points: from a buffer with/without borrowing (the two with a length report and the
/// two plain ones, one with a borrowed context), from a stream without/with buffering, from a file.
#[derive(Copy, Clone, PartialEq, Debug)]
pub enum RMode { Zc, Cp, Zp, Cq, Cm, Su, Sb, File }
impl RMode {
    #[cfg(not(feature = "std"))]
    pub const ALL: [RMode; 5] = [RMode::Zc, RMode::Cp, RMode::Zp, RMode::Cq, RMode::Cm];
    #[cfg(feature = "std")]
    pub const ALL: [RMode; 8] = [RMode::Zc, RMode::Cp, RMode::Zp, RMode::Cq, RMode::Cm, RMode::Su, RMode::Sb, RMode::File];
    pub fn s(self) -> &'static str {
        match self { RMode::Zc => "zc", RMode::Cp => "cp", RMode::Zp => "zp", RMode::Cq => "cq", RMode::Cm => "cm",
                     RMode::Su => "su", RMode::Sb => "sb", RMode::File => "file" }
    }
    pub fn zero_copy(self) -> bool { self == RMode::Zc || self == RMode::Zp }
}
/// Writing entry points.
#[derive(Copy, Clone, PartialEq, Debug)]
pub enum WMode { Vec, VecMut, Buf, BufMut, Stream, File }
impl WMode {
    #[cfg(not(feature = "std"))]
    pub const ALL: [WMode; 4] = [WMode::Vec, WMode::VecMut, WMode::Buf, WMode::BufMut];
    #[cfg(feature = "std")]
    pub const ALL: [WMode; 6] = [WMode::Vec, WMode::VecMut, WMode::Buf, WMode::BufMut, WMode::Stream, WMode::File];
    pub fn s(self) -> &'static str {
        match self { WMode::Vec => "vec", WMode::VecMut => "vecmut", WMode::Buf => "buf", WMode::BufMut => "bufmut",
                     WMode::Stream => "stream", WMode::File => "file" }
    }
}

/// The kind of a speedy error, as its Debug output names it; all forms of "end of input" are "eof",
/// I/O errors are "io:<kind>", user-made ones "Custom".
pub fn class(e: &speedy::Error) -> String {
    let d = format!("{:?}", e);
    let d = d.strip_prefix("Error { kind: ").unwrap_or(&d);
    let name: String = d.chars().take_while(|c| c.is_alphanumeric()).collect();
    match name.as_str() {
        "UnexpectedEndOfInput" | "InputBufferIsTooSmall" => "eof".into(),
        "IoError" => match io_source(e) {
            Some(io) => match io.kind() {
                std::io::ErrorKind::UnexpectedEof => "eof".into(),
                std::io::ErrorKind::Other if io.raw_os_error().is_none() && io.get_ref().map(|x| x.is::<Payload>()) != Some(true) => "Custom".into(),
                k => format!("io:{:?}", k),
            },
            None => "io:?".into(),
        },
        "LengthIsNotTheSameAsLengthAttribute" | "ExpectedConstant" => format!("{}:{}", name, about(e)),
        _ => name,
    }
}
/// which field, how long a constant an error is about
#[cfg(feature = "alloc")]
fn about(e: &speedy::Error) -> String {
    let t = e.to_string();
    match t.split('\'').nth(1) {
        Some(field) => field.trim_start_matches("r#").into(),
        None => t.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect(),
    }
}
#[cfg(not(feature = "alloc"))]
fn about(e: &speedy::Error) -> String {
    let t = format!("{:?}", e);
    match t.split('"').nth(1) {
        Some(field) => field.trim_start_matches("r#").into(),
        None => (t.matches(',').count() + (!t.contains("[]")) as usize).to_string(),
    }
}
/// what an error says of itself is what it says as an io::Error, which it names as its source if it is one
#[cfg(feature = "std")]
fn told(e: speedy::Error) -> (bool, std::io::Error) {
    let (t, own, src) = (e.to_string(), class(&e), std::error::Error::source(&e).map(|s| s.to_string()));
    let was_io = own.starts_with("io:") || own == "Custom" || format!("{:?}", e).contains("IoError");
    let io: std::io::Error = e.into();
    (!t.is_empty() && io.to_string() == t && src == if was_io { Some(t) } else { None }, io)
}
#[cfg(not(feature = "std"))]
fn told(e: speedy::Error) -> (bool, std::io::Error) { (true, e.into_io()) }
/// actual and expected size stated by a buffer-too-small error
pub fn sizes(e: &speedy::Error) -> (i64, i64) {
    let d = format!("{:?}", e);
    let num = |key: &str| -> i64 {
        match d.find(key) {
            Some(i) => d[i + key.len()..].chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit())
                .collect::<String>().parse().unwrap_or(-1),
            None => -1,
        }
    };
    (num("actual_size:"), num("expected_size:"))
}

#[derive(Clone, Debug)]
pub struct ROut {
    /// "ok", "err" or "panic"
    pub s: &'static str,
    pub v: String,
    pub c: String,
    /// length report
    pub n: i64,
    /// bytes taken from the source
    pub taken: i64,
    /// [offset (-1: outside of the input), bytes, align, size, kind, prim, conv]
    pub bo: Vec<[i64; 7]>,
    pub eof: bool,
    pub io: String,
    pub payload: i64,
    /// the same after conversion into an io::Error
    pub io_payload: i64,
    pub peak: usize,
    pub sizes: (i64, i64),
    pub told: bool,
}
impl ROut {
    fn new() -> ROut {
        ROut { s: "panic", v: String::new(), c: "panic".into(), n: -1, taken: -1, bo: vec![], eof: false, io: String::new(), payload: -1, io_payload: -1, peak: 0, sizes: (-1, -1), told: true }
    }
}
pub struct RArgs<'r> {
    pub input: &'static [u8],
    pub sched: Sched,
    pub fault: Option<Fault>,
    pub file: &'r Path,
}
#[derive(Clone, Debug)]
pub struct WOut {
    pub s: &'static str,
    pub b: Vec<u8>,
    pub c: String,
    pub sizes: (i64, i64),
    pub payload: i64,
    pub io_payload: i64,
    /// a buffer's bytes behind (for errors: all its bytes) are as they were
    pub untouched: bool,
}

pub struct TypeOps {
    pub name: &'static str,
    pub tags: &'static str,
    pub es: &'static [E],
    pub schema: fn() -> String,
    pub gen: fn(&mut Rng) -> Box<dyn Any>,
    pub val: fn(&dyn Any) -> String,
    pub read: fn(RMode, E, &RArgs) -> ROut,
    pub write: fn(&dyn Any, WMode, E, &WArgs) -> WOut,
    pub need: fn(&dyn Any) -> WOut,
    pub min: fn() -> Option<usize>,
    pub size_of: usize,
}
impl TypeOps {
    pub fn has(&self, tags: &str) -> bool {
        tags.split(',').any(|t| t == "*" || self.tags.split(' ').any(|x| x == t))
    }
}
pub struct WArgs<'w> {
    pub sched: Sched,
    pub fault: Option<Fault>,
    pub zero: bool,
    pub file: &'w Path,
    /// buffer size; None: the announced size
    pub bufsize: Option<usize>,
}

fn finish<T: Model, X: ErrLike>(out: &mut ROut, input: &'static [u8], r: Result<T, X>) {
    crate::life::mark();
    match r {
        Ok(v) => {
            out.s = "ok";
            out.c.clear();
            v.val(&mut out.v);
            let (a, b) = (input.as_ptr() as usize, input.as_ptr() as usize + input.len());
            v.borrows(&mut |x: Borrow| {
                let inside = x.ptr >= a && x.ptr + x.bytes <= b;
                let off = if x.kind == 2 || !inside { -1 } else { (x.ptr - a) as i64 };
                out.bo.push([off, x.bytes as i64, x.align as i64, x.size as i64, x.kind as i64, x.prim as i64, x.conv as i64]);
            });
        }
        Err(e) => {
            out.s = "err";
            out.c = e.class();
            out.eof = e.eof();
            out.payload = e.payload();
            out.sizes = e.sizes();
            let (told, io) = e.told();
            out.told = told;
            out.io_payload = payload(&io);
            out.io = format!("{:?}", io.kind());
        }
    }
}

fn guarded(f: impl FnOnce(&mut ROut)) -> ROut {
    let mut out = ROut::new();
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut out)));
    if let Err(p) = r {
        let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        out = ROut::new();
        out.v = jstr(&msg);
    }
    out
}

pub fn read_with<C: Ctx, T: Readable<'static, C> + Model>(mode: RMode, e: E, a: &RArgs) -> ROut where C::Error: ErrLike {
    guarded(|out| {
        let input = a.input;
        match mode {
            RMode::Zc => {
                let ((r, n), peak) = with_peak(|| T::read_with_length_from_buffer_with_ctx(C::mk(e), input));
                out.n = n as i64;
                out.peak = peak;
                finish(out, input, r)
            }
            RMode::Cp => {
                let ((r, n), peak) = with_peak(|| T::read_with_length_from_buffer_copying_data_with_ctx(C::mk(e), input));
                out.n = n as i64;
                out.peak = peak;
                finish(out, input, r)
            }
            RMode::Zp => finish(out, input, T::read_from_buffer_with_ctx(C::mk(e), input)),
            RMode::Cq => finish(out, input, T::read_from_buffer_copying_data_with_ctx(C::mk(e), input)),
            RMode::Cm => {
                let mut c = C::mk(e);
                let (r, n) = T::read_with_length_from_buffer_copying_data_with_ctx_mut(&mut c, input);
                c.fin();
                out.n = n as i64;
                finish(out, input, r)
            }
            #[cfg(feature = "std")]
            RMode::Su | RMode::Sb => {
                let mut src = Source::new(input, &a.sched);
                src.fault = a.fault.clone();
                let (r, peak) = with_peak(|| {
                    if mode == RMode::Su { T::read_from_stream_unbuffered_with_ctx(C::mk(e), &mut src) }
                    else { T::read_from_stream_buffered_with_ctx(C::mk(e), &mut src) }
                });
                out.taken = src.taken as i64;
                out.peak = peak;
                finish(out, input, r)
            }
            #[cfg(feature = "std")]
            RMode::File => {
                let (r, peak) = with_peak(|| T::read_from_file_with_ctx(C::mk(e), a.file));
                out.peak = peak;
                finish(out, input, r)
            }
            #[cfg(not(feature = "std"))]
            _ => unreachable!(),
        }
    })
}
/// The same entry points in their form without an explicit context.
pub fn read_default<T: Readable<'static, LittleEndian> + Model>(mode: RMode, e: E, a: &RArgs) -> ROut {
    assert!(e == E::Le);
    guarded(|out| {
        let input = a.input;
        match mode {
            RMode::Zc => {
                let (r, n) = T::read_with_length_from_buffer(input);
                out.n = n as i64;
                finish(out, input, r)
            }
            RMode::Cp => {
                let (r, n) = T::read_with_length_from_buffer_copying_data(input);
                out.n = n as i64;
                finish(out, input, r)
            }
            RMode::Zp => finish(out, input, T::read_from_buffer(input)),
            RMode::Cq => finish(out, input, T::read_from_buffer_copying_data(input)),
            RMode::Cm => {
                let mut c = LittleEndian {};
                let (r, n) = T::read_with_length_from_buffer_copying_data_with_ctx_mut(&mut c, input);
                out.n = n as i64;
                finish(out, input, r)
            }
            #[cfg(feature = "std")]
            RMode::Su | RMode::Sb => {
                let mut src = Source::new(input, &a.sched);
                src.fault = a.fault.clone();
                let r = if mode == RMode::Su { T::read_from_stream_unbuffered(&mut src) } else { T::read_from_stream_buffered(&mut src) };
                out.taken = src.taken as i64;
                finish(out, input, r)
            }
            #[cfg(feature = "std")]
            RMode::File => finish(out, input, T::read_from_file(a.file)),
            #[cfg(not(feature = "std"))]
            _ => unreachable!(),
        }
    })
}

fn wguarded(f: impl FnOnce() -> WOut) -> WOut {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(_) => WOut { s: "panic", b: vec![], c: "panic".into(), sizes: (-1, -1), payload: -1, io_payload: -1, untouched: true },
    }
}
fn wout<X: ErrLike>(r: Result<(), X>, b: Vec<u8>, untouched: bool) -> WOut {
    match r {
        Ok(()) => WOut { s: "ok", b, c: String::new(), sizes: (-1, -1), payload: -1, io_payload: -1, untouched },
        Err(e) => {
            let payload = e.payload();
            let (c, sizes) = (e.class(), e.speedy().map_or((-1, -1), sizes));
            let io = e.into_io();
            WOut { s: "err", b, c, sizes, payload, io_payload: crate::util::payload(&io), untouched }
        }
    }
}
/// A buffer of n bytes inside guard bytes; what stands in front of the buffer is offset dependent.
struct Buf { mem: Vec<u8>, n: usize }
const GUARD: usize = 24;
fn canary(i: usize) -> u8 { (i as u8).wrapping_mul(37) ^ 0xC3 }
impl Buf {
    fn new(n: usize) -> Buf { Buf { mem: (0..n + 2 * GUARD).map(canary).collect(), n } }
    fn slice(&mut self) -> &mut [u8] { &mut self.mem[GUARD..GUARD + self.n] }
    fn intact(&self, from: usize, to: usize) -> bool { (from..to).all(|i| self.mem[i] == canary(i)) }
    /// everything but the first k bytes of the buffer untouched
    fn rest(&self, k: usize) -> bool { self.intact(0, GUARD) && self.intact(GUARD + k, self.mem.len()) }
    fn first(&self, k: usize) -> Vec<u8> { self.mem[GUARD..GUARD + k].to_vec() }
}
/// want: length of the encoding, as far as known
fn buf_out<X: ErrLike>(r: Result<(), X>, b: Buf, want: usize) -> WOut {
    match r {
        Ok(()) => {
            let k = want.min(b.n);
            let (first, rest) = (b.first(k), b.rest(k));
            wout(r, first, rest)
        }
        Err(e) => {
            let rest = b.rest(0);
            wout(Err(e), vec![], rest)
        }
    }
}
#[cfg(feature = "alloc")]
fn to_vec<C: Context, T: Writable<C>>(v: &T, c: C) -> Result<Vec<u8>, C::Error> { v.write_to_vec_with_ctx(c) }
#[cfg(feature = "alloc")]
fn to_vec_mut<C: Context, T: Writable<C>>(v: &T, c: &mut C) -> Result<Vec<u8>, C::Error> { v.write_to_vec_with_ctx_mut(c) }
#[cfg(feature = "alloc")]
fn to_vec_default<T: Writable<LittleEndian>>(v: &T) -> Result<Vec<u8>, speedy::Error> { v.write_to_vec() }
/// without an allocator: a writer of one's own
#[cfg(not(feature = "alloc"))]
struct Own<'c, C> { c: &'c mut C, b: Vec<u8> }
#[cfg(not(feature = "alloc"))]
impl<C: Context> speedy::Writer<C> for Own<'_, C> {
    fn write_bytes(&mut self, s: &[u8]) -> Result<(), C::Error> { self.b.extend_from_slice(s); Ok(()) }
    fn context(&self) -> &C { self.c }
    fn context_mut(&mut self) -> &mut C { self.c }
}
#[cfg(not(feature = "alloc"))]
fn to_vec_mut<C: Context, T: Writable<C>>(v: &T, c: &mut C) -> Result<Vec<u8>, C::Error> {
    let mut w = Own { c, b: vec![] };
    v.write_to(&mut w)?;
    Ok(w.b)
}
#[cfg(not(feature = "alloc"))]
fn to_vec<C: Context, T: Writable<C>>(v: &T, mut c: C) -> Result<Vec<u8>, C::Error> { to_vec_mut(v, &mut c) }
#[cfg(not(feature = "alloc"))]
fn to_vec_default<T: Writable<LittleEndian>>(v: &T) -> Result<Vec<u8>, speedy::Error> { to_vec(v, LittleEndian {}) }
pub fn write_with<C: Ctx, T: Writable<C> + 'static>(v: &dyn Any, mode: WMode, e: E, a: &WArgs) -> WOut where C::Error: ErrLike {
    let v: &T = v.downcast_ref().unwrap();
    wguarded(|| match mode {
        WMode::Vec => match to_vec::<C, T>(v, C::mk(e)) {
            Ok(b) => wout(Ok::<(), C::Error>(()), b, true),
            Err(x) => wout(Err(x), vec![], true),
        },
        WMode::VecMut => {
            let mut c = C::mk(e);
            let r = to_vec_mut::<C, T>(v, &mut c);
            c.fin();
            match r {
                Ok(b) => wout(Ok::<(), C::Error>(()), b, true),
                Err(x) => wout(Err(x), vec![], true),
            }
        }
        WMode::Buf | WMode::BufMut => {
            let need = v.bytes_needed().unwrap_or(0);
            let mut b = Buf::new(a.bufsize.unwrap_or(need));
            let r = if mode == WMode::Buf { v.write_to_buffer_with_ctx(C::mk(e), b.slice()) } else {
                let mut c = C::mk(e);
                let r = v.write_to_buffer_with_ctx_mut(&mut c, b.slice());
                c.fin();
                r
            };
            buf_out(r, b, need)
        }
        #[cfg(feature = "std")]
        WMode::Stream => {
            let mut s = Sink::new(&a.sched);
            s.fault = a.fault.clone();
            s.zero = a.zero;
            let r = v.write_to_stream_with_ctx(C::mk(e), &mut s);
            wout(r, s.data, true)
        }
        #[cfg(feature = "std")]
        WMode::File => {
            let r = v.write_to_file_with_ctx(C::mk(e), a.file);
            let b = if a.file.starts_with("/dev") { vec![] } else { std::fs::read(a.file).unwrap_or_default() };
            wout(r, b, true)
        }
        #[cfg(not(feature = "std"))]
        _ => unreachable!(),
    })
}
pub fn write_default<T: Writable<LittleEndian> + 'static>(v: &dyn Any, mode: WMode, e: E, a: &WArgs) -> WOut {
    assert!(e == E::Le);
    let v: &T = v.downcast_ref().unwrap();
    wguarded(|| match mode {
        WMode::Vec | WMode::VecMut => match to_vec_default(v) {
            Ok(b) => wout(Ok::<(), speedy::Error>(()), b, true),
            Err(x) => wout(Err(x), vec![], true),
        },
        WMode::Buf | WMode::BufMut => {
            let need = v.bytes_needed().unwrap_or(0);
            let mut b = Buf::new(a.bufsize.unwrap_or(need));
            let r = v.write_to_buffer(b.slice());
            buf_out(r, b, need)
        }
        #[cfg(feature = "std")]
        WMode::Stream => {
            let mut s = Sink::new(&a.sched);
            s.fault = a.fault.clone();
            s.zero = a.zero;
            let r = v.write_to_stream(&mut s);
            wout(r, s.data, true)
        }
        #[cfg(feature = "std")]
        WMode::File => {
            let r = v.write_to_file(a.file);
            let b = if a.file.starts_with("/dev") { vec![] } else { std::fs::read(a.file).unwrap_or_default() };
            wout(r, b, true)
        }
        #[cfg(not(feature = "std"))]
        _ => unreachable!(),
    })
}
pub fn need_with<C: Ctx, T: Writable<C> + 'static>(v: &dyn Any) -> WOut where C::Error: ErrLike {
    let v: &T = v.downcast_ref().unwrap();
    wguarded(|| match v.bytes_needed() {
        Ok(n) => { let mut o = wout(Ok::<(), C::Error>(()), vec![], true); o.sizes = (n as i64, -1); o }
        Err(e) => wout(Err(e), vec![], true),
    })
}
pub fn min_with<C: Ctx, T: Readable<'static, C>>() -> Option<usize> {
    catch_unwind(|| T::minimum_bytes_needed()).ok()
}
pub fn gen_any<T: Model + 'static>(r: &mut Rng) -> Box<dyn Any> { Box::new(T::gen(r)) }
pub fn val_any<T: Model + 'static>(v: &dyn Any) -> String {
    let mut o = String::new();
    v.downcast_ref::<T>().unwrap().val(&mut o);
    o
}
pub fn schema_any<T: Model>() -> String { T::schema() }

/// reg!(list, "tags": T1, T2, ...): byte order chosen at run time
#[macro_export]
macro_rules! reg {
    ($v:expr, $tags:expr; $($t:ty),+ $(,)?) => { $( $v.push($crate::ops::TypeOps {
        name: stringify!($t), tags: $tags, es: &$crate::ops::E::BOTH,
        schema: $crate::ops::schema_any::<$t>, gen: $crate::ops::gen_any::<$t>, val: $crate::ops::val_any::<$t>,
        read: $crate::ops::read_with::<speedy::Endianness, $t>, write: $crate::ops::write_with::<speedy::Endianness, $t>,
        need: $crate::ops::need_with::<speedy::Endianness, $t>, min: $crate::ops::min_with::<speedy::Endianness, $t>,
        size_of: std::mem::size_of::<$t>(),
    }); )+ };
}
/// the entry points without explicit context (little endian)
#[macro_export]
macro_rules! reg_le {
    ($v:expr, $tags:expr; $($t:ty),+ $(,)?) => { $( $v.push($crate::ops::TypeOps {
        name: concat!("LE/", stringify!($t)), tags: $tags, es: &[$crate::ops::E::Le],
        schema: $crate::ops::schema_any::<$t>, gen: $crate::ops::gen_any::<$t>, val: $crate::ops::val_any::<$t>,
        read: $crate::ops::read_default::<$t>, write: $crate::ops::write_default::<$t>,
        need: $crate::ops::need_with::<speedy::LittleEndian, $t>, min: $crate::ops::min_with::<speedy::LittleEndian, $t>,
        size_of: std::mem::size_of::<$t>(),
    }); )+ };
}
/// a context of one's own
#[macro_export]
macro_rules! reg_tick {
    ($v:expr, $tags:expr; $($t:ty),+ $(,)?) => { $( $v.push($crate::ops::TypeOps {
        name: concat!("Tick/", stringify!($t)), tags: $tags, es: &$crate::ops::E::BOTH,
        schema: $crate::ops::schema_any::<$t>, gen: $crate::ops::gen_any::<$t>, val: $crate::ops::val_any::<$t>,
        read: $crate::ops::read_with::<$crate::tick::Tick, $t>, write: $crate::ops::write_with::<$crate::tick::Tick, $t>,
        need: $crate::ops::need_with::<$crate::tick::Tick, $t>, min: $crate::ops::min_with::<$crate::tick::Tick, $t>,
        size_of: std::mem::size_of::<$t>(),
    }); )+ };
}
/// byte order fixed at compile time
#[macro_export]
macro_rules! reg_be {
    ($v:expr, $tags:expr; $($t:ty),+ $(,)?) => { $( $v.push($crate::ops::TypeOps {
        name: concat!("BE/", stringify!($t)), tags: $tags, es: &[$crate::ops::E::Be],
        schema: $crate::ops::schema_any::<$t>, gen: $crate::ops::gen_any::<$t>, val: $crate::ops::val_any::<$t>,
        read: $crate::ops::read_with::<speedy::BigEndian, $t>, write: $crate::ops::write_with::<speedy::BigEndian, $t>,
        need: $crate::ops::need_with::<speedy::BigEndian, $t>, min: $crate::ops::min_with::<speedy::BigEndian, $t>,
        size_of: std::mem::size_of::<$t>(),
    }); )+ };
}
