//! Random numbers, JSON output, schedules of sources and sinks, allocation accounting.
use std::alloc::{GlobalAlloc, Layout, System};
use std::io;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// A 128-bit number with interesting bit patterns: small, powers of two and neighbours, random.
    pub fn int(&mut self) -> u128 {
        let r = ((self.next() as u128) << 64) | self.next() as u128;
        match self.below(8) {
            0 => (r % 4) as u128,
            1 => r % 300,
            2 => {
                let k = self.below(128);
                (1u128 << k).wrapping_add((self.below(3) as u128).wrapping_sub(1))
            }
            3 => u128::MAX.wrapping_sub(r % 3),
            4 => {
                let k = self.below(16);
                (r & 0xff) << (8 * k)
            }
            5 => 0x0f0e0d0c0b0a09080706050403020100u128.wrapping_add(r % 7),
            _ => r,
        }
    }
    /// A small length, now and then a bigger one.
    pub fn len(&mut self, max: usize) -> usize {
        let r = self.below(10);
        let m = if r < 2 { 0 } else if r < 7 { 4 } else { max };
        self.below(m.min(max) + 1)
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn jbytes(o: &mut String, b: &[u8]) {
    o.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let mut x = *x;
        if x >= 100 {
            o.push((b'0' + x / 100) as char);
            x %= 100;
            o.push((b'0' + x / 10) as char);
        } else if x >= 10 {
            o.push((b'0' + x / 10) as char);
        }
        o.push((b'0' + x % 10) as char);
    }
    o.push(']');
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push('?'),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn jints<T: std::fmt::Display>(xs: &[T]) -> String {
    let v: Vec<String> = xs.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}
pub fn jstrs(xs: &[&str]) -> String {
    let v: Vec<String> = xs.iter().map(|x| jstr(x)).collect();
    format!("[{}]", v.join(","))
}

// ---------------------------------------------------------------- schedules

/// How a source hands out its bytes (or a sink takes them).
#[derive(Clone, Debug)]
pub enum Sched {
    All,
    /// at most that many bytes at a time
    Fixed(usize),
    /// pseudo random pieces up to that size, interruptions with probability num/8
    Random { seed: u64, max: usize, intr: u64 },
    /// explicit list of steps, cyclic: 0 = interruption, n = up to n bytes
    Steps(Vec<usize>),
}
impl Sched {
    pub fn random(r: &mut Rng) -> Sched {
        match r.below(7) {
            0 => Sched::All,
            1 => Sched::Fixed(1),
            2 => Sched::Fixed(1 + r.below(9)),
            3 => Sched::Random { seed: r.next(), max: 3, intr: 3 },
            4 => Sched::Random { seed: r.next(), max: 16, intr: 1 },
            5 => Sched::Random { seed: r.next(), max: 5000, intr: 2 },
            _ => {
                let k = 1 + r.below(5);
                let mut v: Vec<usize> = (0..k).map(|_| r.below(4)).collect();
                v.push(1 + r.below(8));
                Sched::Steps(v)
            }
        }
    }
}
pub struct Plan {
    sched: Sched,
    rng: Rng,
    step: usize,
}
impl Plan {
    pub fn new(sched: &Sched) -> Plan {
        let seed = if let Sched::Random { seed, .. } = sched { *seed } else { 0 };
        Plan { sched: sched.clone(), rng: Rng::new(seed), step: 0 }
    }
    /// None: interruption; Some(n): at most n (>= 1) bytes
    pub fn next(&mut self) -> Option<usize> {
        match &self.sched {
            Sched::All => Some(usize::MAX),
            Sched::Fixed(n) => Some(*n),
            Sched::Random { max, intr, .. } => {
                if self.rng.next() % 8 < *intr {
                    None
                } else {
                    Some(1 + self.rng.below(*max))
                }
            }
            Sched::Steps(v) => {
                let s = v[self.step % v.len()];
                self.step += 1;
                if s == 0 { None } else { Some(s) }
            }
        }
    }
}

/// What happens when the source (sink) has given (taken) `at` bytes.
#[derive(Clone, Debug)]
pub struct Fault {
    pub at: usize,
    pub kind: io::ErrorKind,
    pub payload: u32,
    /// instead: an error of the operating system
    pub os: i32,
    /// happens once; then it goes on as if nothing had been
    pub once: bool,
}
#[derive(Debug)]
pub struct Payload(pub u32);
impl std::fmt::Display for Payload {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "payload {}", self.0)
    }
}
impl std::error::Error for Payload {}
impl Fault {
    pub fn error(&self) -> io::Error {
        if self.os != 0 { return io::Error::from_raw_os_error(self.os) }
        io::Error::new(self.kind, Payload(self.payload))
    }
    pub fn class(&self) -> String { format!("io:{:?}", self.error().kind()) }
    pub fn mark(&self) -> i64 { payload(&self.error()) }
}
/// What tells one I/O error from another: its payload, or its number.
pub fn payload(e: &io::Error) -> i64 {
    if let Some(n) = e.raw_os_error() { return 1_000_000 + n as i64 }
    e.get_ref().and_then(|x| x.downcast_ref::<Payload>()).map_or(-1, |p| p.0 as i64)
}

pub struct Source<'a> {
    pub data: &'a [u8],
    pub taken: usize,
    pub plan: Plan,
    pub fault: Option<Fault>,
    fired: bool,
    pub calls: u64,
}
impl<'a> Source<'a> {
    pub fn new(data: &'a [u8], sched: &Sched) -> Self {
        Source { data, taken: 0, plan: Plan::new(sched), fault: None, fired: false, calls: 0 }
    }
}
impl<'a> io::Read for Source<'a> {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        tick();
        self.calls += 1;
        if out.is_empty() {
            return Ok(0);
        }
        let n = match self.plan.next() {
            None => return Err(io::ErrorKind::Interrupted.into()),
            Some(n) => n,
        };
        let mut end = self.data.len();
        if let Some(ref f) = self.fault {
            if !(f.once && self.fired) {
                end = end.min(f.at);
                if self.taken >= end {
                    self.fired = true;
                    return Err(f.error());
                }
            }
        }
        let n = n.min(out.len()).min(end - self.taken);
        out[..n].copy_from_slice(&self.data[self.taken..self.taken + n]);
        self.taken += n;
        Ok(n)
    }
}

pub struct Sink {
    pub data: Vec<u8>,
    pub plan: Plan,
    pub fault: Option<Fault>,
    /// at the fault report "no space" by accepting zero bytes
    pub zero: bool,
    fired: bool,
}
impl Sink {
    pub fn new(sched: &Sched) -> Self {
        Sink { data: Vec::new(), plan: Plan::new(sched), fault: None, zero: false, fired: false }
    }
}
impl<'s> io::Write for &'s mut Sink {
    fn write(&mut self, inp: &[u8]) -> io::Result<usize> {
        tick();
        if inp.is_empty() {
            return Ok(0);
        }
        let n = match self.plan.next() {
            None => return Err(io::ErrorKind::Interrupted.into()),
            Some(n) => n,
        };
        let mut n = n.min(inp.len());
        if let Some(ref f) = self.fault {
            let room = f.at.saturating_sub(self.data.len());
            if room == 0 && !(f.once && self.fired) {
                self.fired = true;
                return if self.zero { Ok(0) } else { Err(f.error()) };
            }
            if room > 0 { n = n.min(room) }
        }
        self.data.extend_from_slice(&inp[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------- allocation accounting

pub struct Counting;
static CURRENT: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
pub static OVER_LIMIT: AtomicBool = AtomicBool::new(false);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT.load(Relaxed) {
            OVER_LIMIT.store(true, Relaxed);
            return std::ptr::null_mut();
        }
        let c = CURRENT.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(c, Relaxed);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CURRENT.fetch_sub(l.size(), Relaxed);
        unsafe { System.dealloc(p, l) }
    }
}
/// Runs f and reports by how much memory use peaked above the level at the start.
pub fn with_peak<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let base = CURRENT.load(Relaxed);
    PEAK.store(base, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed).saturating_sub(base))
}
pub fn set_alloc_limit(n: usize) {
    LIMIT.store(n, Relaxed);
}

// ---------------------------------------------------------------- watchdog

static TICKS: AtomicU64 = AtomicU64::new(0);
pub fn tick() {
    TICKS.fetch_add(1, Relaxed);
}
static CASE: AtomicU64 = AtomicU64::new(0);
pub fn case_number() -> u64 {
    CASE.load(Relaxed)
}
pub fn next_case() -> u64 {
    CASE.fetch_add(1, Relaxed) + 1
}
/// Ends the process with status 97 when one case takes too long.
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(secs));
            let now = CASE.load(Relaxed);
            if now == last {
                eprintln!("watchdog: case {} does not finish", now);
                std::process::exit(97);
            }
            last = now;
        }
    });
}

// ---------------------------------------------------------------- guarded input memory

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
}
/// Memory whose last byte is followed by an inaccessible page.
pub struct Arena {
    base: *mut u8,
    size: usize,
}
impl Arena {
    pub fn new(size: usize) -> Arena {
        let size = (size + 4095) / 4096 * 4096;
        unsafe {
            let p = mmap(std::ptr::null_mut(), size + 8192, 3, 0x22, -1, 0);
            assert!(p as isize != -1);
            assert_eq!(mprotect(p, 4096, 0), 0);
            assert_eq!(mprotect(p.add(4096 + size), 4096, 0), 0);
            Arena { base: p.add(4096), size }
        }
    }
    /// Puts the input right before the inaccessible page, or (align >= 0) at an address that is
    /// `align` modulo 16, surrounded by other bytes.
    pub fn place(&mut self, data: &[u8], align: isize) -> &'static [u8] {
        let n = data.len();
        assert!(n + 64 <= self.size, "input too big for the arena");
        unsafe {
            let p = if align < 0 {
                self.base.add(self.size - n)
            } else {
                let p = self.base.add(16 + align as usize);
                std::ptr::write_bytes(self.base, 0xA5, 16 + align as usize);
                std::ptr::write_bytes(p.add(n), 0x5A, (self.size - 16 - align as usize - n).min(64));
                p
            };
            std::ptr::copy_nonoverlapping(data.as_ptr(), p, n);
            std::slice::from_raw_parts(p, n)
        }
    }
}

// ---------------------------------------------------------------- arguments

pub struct Args(Vec<(String, String)>);
impl Args {
    pub fn get() -> Args {
        let mut v = Vec::new();
        let a: Vec<String> = std::env::args().skip(1).collect();
        let mut i = 0;
        while i < a.len() {
            if let Some(k) = a[i].strip_prefix("--") {
                if i + 1 < a.len() {
                    v.push((k.to_string(), a[i + 1].clone()));
                }
                i += 2;
            } else {
                v.push(("cmd".to_string(), a[i].clone()));
                i += 1;
            }
        }
        Args(v)
    }
    pub fn str(&self, k: &str) -> Option<&str> {
        self.0.iter().find(|x| x.0 == k).map(|x| x.1.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.str(k).map(|x| x.parse().unwrap()).unwrap_or(d)
    }
}
