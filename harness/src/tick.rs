//! A context of one's own: it carries a counter and a byte order that parts of a value look at and change.
use crate::model::*;
use crate::ops::{class, Ctx, ErrLike, E};
use crate::util::*;
use speedy::{Context, Endianness, IsEof, Readable, Reader, Writable, Writer};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::cell::{Cell, RefCell};

thread_local! {
    /// what the context counts from
    static START: Cell<u64> = Cell::new(0);
    /// (byte, counter found) of every mark read or written
    static LOG: RefCell<Vec<(u8, u64)>> = RefCell::new(Vec::new());
    /// the counter of the caller's context afterwards
    static FIN: Cell<i64> = Cell::new(-1);
}
pub fn reset(start: u64) {
    START.with(|s| s.set(start));
    LOG.with(|l| l.borrow_mut().clear());
    FIN.with(|f| f.set(-1));
}
/// "log":[[byte, counter], ...],"fin":counter
pub fn json() -> String {
    let v: Vec<String> = LOG.with(|l| l.borrow().iter().map(|(b, n)| format!("[{},{}]", b, n)).collect());
    format!("\"log\":[{}],\"fin\":{}", v.join(","), FIN.with(|f| f.get()))
}

/// Not Clone, not Default: there is only the one the caller made.
pub struct Tick { e: Endianness, n: u64 }
impl Tick { pub fn at(&self) -> u64 { self.n } }
#[derive(Debug)]
pub enum TErr {
    Speedy(speedy::Error),
    User(u8, u64),
    /// of the user's making, and calls itself an end of input
    UserEof(u8, u64),
}
impl From<speedy::Error> for TErr { fn from(e: speedy::Error) -> Self { TErr::Speedy(e) } }
impl IsEof for TErr {
    fn is_eof(&self) -> bool { match self { TErr::Speedy(e) => e.is_eof(), TErr::User(..) => false, TErr::UserEof(..) => true } }
}
impl Context for Tick {
    type Error = TErr;
    fn endianness(&self) -> Endianness { self.e }
}
impl Ctx for Tick {
    fn mk(e: E) -> Self { Tick { e: e.end(), n: START.with(|s| s.get()) } }
    fn fin(&self) { FIN.with(|f| f.set(self.n as i64)) }
}
impl ErrLike for TErr {
    fn class(&self) -> String { match self { TErr::Speedy(e) => class(e), TErr::User(..) => "User".into(), TErr::UserEof(..) => "UserEof".into() } }
    fn eof(&self) -> bool { self.is_eof() }
    fn speedy(&self) -> Option<&speedy::Error> { match self { TErr::Speedy(e) => Some(e), _ => None } }
    fn payload(&self) -> i64 {
        match self { TErr::Speedy(e) => ErrLike::payload(e), TErr::User(b, n) | TErr::UserEof(b, n) => *n as i64 * 256 + *b as i64 }
    }
    fn into_io(self) -> std::io::Error {
        match self { TErr::Speedy(e) => ErrLike::into_io(e), _ => std::io::Error::new(std::io::ErrorKind::Other, "user") }
    }
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Debug)]
pub struct Mark(pub u8);
pub type M = Mark;
fn note(c: &mut Tick, b: u8) {
    LOG.with(|l| l.borrow_mut().push((b, c.n)));
    c.n += b as u64;
}
impl<'a> Readable<'a, Tick> for Mark {
    fn read_from<R: Reader<'a, Tick>>(r: &mut R) -> Result<Self, TErr> {
        let before = r.context().n;
        let b = r.read_u8()?;
        if r.context().n != before { panic!("the context changed") }
        if b >= 0xF0 { return Err(TErr::UserEof(b, before)) }
        if b >= 0xE0 { return Err(TErr::User(b, before)) }
        note(r.context_mut(), b);
        Ok(Mark(b))
    }
    fn minimum_bytes_needed() -> usize { 1 }
}
impl Writable<Tick> for Mark {
    fn write_to<W: ?Sized + Writer<Tick>>(&self, w: &mut W) -> Result<(), TErr> {
        // the calculation of sizes has no context to offer (a known finding, see the probes)
        let before = match catch_unwind(AssertUnwindSafe(|| w.context().n)) { Ok(n) => n, Err(_) => return w.write_u8(self.0) };
        if self.0 >= 0xD0 { return Err(TErr::User(self.0, before)) }
        note(w.context_mut(), self.0);
        w.write_u8(self.0)
    }
    fn bytes_needed(&self) -> Result<usize, TErr> { Ok(1) }
}
impl Model for Mark {
    fn schema() -> String { "{\"k\":\"mark\"}".into() }
    fn val(&self, o: &mut String) { o.push_str(&self.0.to_string()) }
    fn gen(r: &mut Rng) -> Self { Mark(if r.chance(1, 30) { 0xD0 + r.below(16) } else { r.below(0xD0) } as u8) }
}

/// No bytes; everything behind it is in the other byte order.
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Debug)]
pub struct Flip;
fn turn(c: &mut Tick) {
    c.e = if c.e == Endianness::LittleEndian { Endianness::BigEndian } else { Endianness::LittleEndian };
}
impl<'a> Readable<'a, Tick> for Flip {
    fn read_from<R: Reader<'a, Tick>>(r: &mut R) -> Result<Self, TErr> { turn(r.context_mut()); Ok(Flip) }
    fn minimum_bytes_needed() -> usize { 0 }
}
impl Writable<Tick> for Flip {
    fn write_to<W: ?Sized + Writer<Tick>>(&self, w: &mut W) -> Result<(), TErr> {
        let _ = catch_unwind(AssertUnwindSafe(|| turn(w.context_mut())));
        Ok(())
    }
    fn bytes_needed(&self) -> Result<usize, TErr> { Ok(0) }
}
impl Model for Flip {
    fn schema() -> String { "{\"k\":\"unit\"}".into() }
    fn val(&self, o: &mut String) { o.push_str("[]") }
    fn gen(_: &mut Rng) -> Self { Flip }
}
/// the schema t in the other byte order
pub fn inv(t: String) -> String { format!("{{\"k\":\"inv\",\"t\":{}}}", t) }
