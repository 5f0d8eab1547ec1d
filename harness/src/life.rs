//! Elements whose construction and destruction are recorded.
use crate::model::*;
use crate::util::*;
use speedy::{Context, Readable, Reader, Writable, Writer};
use std::cell::{Cell, RefCell};

/// what stands for an element without a size
pub const Z: i64 = 1_000_000;
thread_local! {
    /// n: element n came to be; -n: it was dropped; 0: the read returned
    static LOG: RefCell<Vec<i64>> = RefCell::new(Vec::new());
    static OWN: RefCell<Vec<i64>> = RefCell::new(Vec::new());
    static NEXT: Cell<i64> = Cell::new(0);
    /// reading the n-th element without a size fails (1: an error, 2: a panic)
    static ZFAIL: Cell<(u64, u8)> = Cell::new((u64::MAX, 0));
    static ZNEXT: Cell<u64> = Cell::new(0);
}
pub fn log(x: i64) { let _ = LOG.try_with(|l| l.borrow_mut().push(x)); }
/// called by the reading entry points when they have returned
pub fn mark() { if NEXT.with(|n| n.get()) >= 0 { log(0) } }
fn born() -> i64 {
    let k = NEXT.with(|n| { let k = n.get() + 1; n.set(k); k });
    log(k);
    k
}
#[cfg(feature = "std")]
fn fail() -> speedy::Error { speedy::Error::custom("element") }
#[cfg(not(feature = "std"))]
fn fail() -> speedy::Error { <bool as Readable<speedy::LittleEndian>>::read_from_buffer(&[]).unwrap_err() }
pub fn reset(zfail: (u64, u8)) {
    LOG.with(|l| l.borrow_mut().clear());
    OWN.with(|l| l.borrow_mut().clear());
    NEXT.with(|n| n.set(0));
    ZFAIL.with(|z| z.set(zfail));
    ZNEXT.with(|z| z.set(0));
}
pub fn take() -> (Vec<i64>, Vec<i64>) { (LOG.with(|l| l.borrow().clone()), OWN.with(|l| l.borrow().clone())) }

/// One byte: from 0xE0 reading it fails, from 0xF0 it panics.  MIN: the announced minimum; P: more size.
pub struct El<const MIN: usize, const P: usize> { id: i64, b: u8, pad: [u64; P] }
impl<const M: usize, const P: usize> El<M, P> {
    fn new(b: u8) -> Self { El { id: born(), b, pad: [0x5151; P] } }
}
impl<const M: usize, const P: usize> Drop for El<M, P> {
    fn drop(&mut self) {
        // memory that never was an element has no such pattern
        let sound = self.pad.iter().all(|x| *x == 0x5151) && self.id > 0 && self.id < Z;
        log(if sound { -self.id } else { -(Z - 1) });
    }
}
impl<const M: usize, const P: usize> Default for El<M, P> { fn default() -> Self { El::new(0) } }
impl<const M: usize, const P: usize> Clone for El<M, P> { fn clone(&self) -> Self { El::new(self.b) } }
impl<const M: usize, const P: usize> PartialEq for El<M, P> { fn eq(&self, o: &Self) -> bool { self.b == o.b } }
impl<const M: usize, const P: usize> Eq for El<M, P> {}
impl<const M: usize, const P: usize> PartialOrd for El<M, P> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl<const M: usize, const P: usize> Ord for El<M, P> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.b.cmp(&o.b) } }
impl<const M: usize, const P: usize> std::hash::Hash for El<M, P> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.b.hash(h) } }
impl<'a, C: Context, const M: usize, const P: usize> Readable<'a, C> for El<M, P> {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        let b = r.read_u8()?;
        if b >= 0xF0 { panic!("element") }
        if b >= 0xE0 { return Err(fail().into()) }
        Ok(El::new(b))
    }
    fn minimum_bytes_needed() -> usize { M }
}
impl<C: Context, const M: usize, const P: usize> Writable<C> for El<M, P> {
    fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> { w.write_u8(self.b) }
}
impl<const M: usize, const P: usize> Model for El<M, P> {
    fn schema() -> String { "{\"k\":\"el\"}".into() }
    fn val(&self, o: &mut String) {
        OWN.with(|l| l.borrow_mut().push(self.id));
        o.push_str(&self.b.to_string())
    }
    fn gen(r: &mut Rng) -> Self { El::new(if r.chance(1, 2) { r.below(6) } else { r.below(0xE0) } as u8) }
}

/// No bytes, no size.
pub struct Ez(());
impl Drop for Ez { fn drop(&mut self) { log(-Z) } }
impl Default for Ez { fn default() -> Self { log(Z); Ez(()) } }
impl<'a, C: Context> Readable<'a, C> for Ez {
    fn read_from<R: Reader<'a, C>>(_: &mut R) -> Result<Self, C::Error> {
        let n = ZNEXT.with(|z| { let n = z.get() + 1; z.set(n); n });
        let f = ZFAIL.with(|z| z.get());
        if n == f.0 {
            if f.1 == 2 { panic!("element") }
            return Err(fail().into());
        }
        Ok(Ez::default())
    }
    fn minimum_bytes_needed() -> usize { 0 }
}
impl<C: Context> Writable<C> for Ez {
    fn write_to<W: ?Sized + Writer<C>>(&self, _: &mut W) -> Result<(), C::Error> { Ok(()) }
}
impl Model for Ez {
    fn schema() -> String { "{\"k\":\"elz\"}".into() }
    fn val(&self, o: &mut String) { OWN.with(|l| l.borrow_mut().push(Z)); o.push('0') }
    fn gen(_: &mut Rng) -> Self { Ez::default() }
}
pub type L = El<1, 0>;
/// announces no minimum
pub type L0 = El<0, 0>;
/// is big
pub type LB = El<1, 9>;
