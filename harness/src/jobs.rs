//! The jobs: each makes cases from (seed, type, number), runs them and appends one JSON line per case.
use crate::ops::*;
use crate::util::*;
use std::any::Any;
use std::fs::File;
use std::io::Write;
use std::path::PathBuf;

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
/// A file in shared memory that names the case being run, so that it is known after a crash.
pub struct Pending {
    p: *mut u8,
}
const PEND: usize = 1 << 16;
impl Pending {
    pub fn new(path: &str) -> Pending {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len(PEND as u64).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), PEND, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1);
        std::mem::forget(f);
        Pending { p }
    }
    pub fn set(&mut self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(PEND - 8);
        unsafe {
            std::ptr::copy_nonoverlapping((n as u64).to_le_bytes().as_ptr(), self.p, 8);
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(8), n);
        }
    }
}

pub struct Runner {
    pub list: Vec<TypeOps>,
    pub out: std::io::BufWriter<File>,
    pub pend: Pending,
    pub dir: PathBuf,
    pub arena: Arena,
    pub seed: u64,
    pub n: usize,
    pub big: Arena,
    pub modes: Vec<RMode>,
    pub srcs: Vec<String>,
    pub deep: bool,
    pub schemas: std::collections::HashMap<usize, std::rc::Rc<crate::guided::J>>,
}

#[derive(Default)]
struct Group {
    items: Vec<(String, Vec<String>)>,
}
impl Group {
    fn add(&mut self, body: String, m: String) {
        if let Some(x) = self.items.iter_mut().find(|x| x.0 == body) {
            x.1.push(m);
        } else {
            self.items.push((body, vec![m]));
        }
    }
    fn json(&self) -> String {
        let v: Vec<String> = self.items.iter()
            .map(|(b, ms)| format!("{{\"ms\":[{}],{}}}", ms.iter().map(|m| jstr(m)).collect::<Vec<_>>().join(","), b)).collect();
        format!("[{}]", v.join(","))
    }
}
fn rbody(o: &ROut) -> String {
    if o.s == "ok" {
        format!("\"s\":\"ok\",\"c\":\"\",\"v\":{}", o.v)
    } else if o.s == "panic" {
        format!("\"s\":\"panic\",\"c\":\"panic\",\"v\":0,\"msg\":{}", if o.v.is_empty() { "\"\"" } else { &o.v })
    } else {
        format!("\"s\":\"err\",\"c\":{},\"v\":0", jstr(&o.c))
    }
}
fn wbody(o: &WOut) -> String {
    let mut b = String::new();
    jbytes(&mut b, if o.s == "ok" { &o.b } else { &[] });
    format!("\"s\":\"{}\",\"c\":{},\"b\":{}", o.s, jstr(&o.c), b)
}
fn jb(b: &[u8]) -> String {
    let mut o = String::new();
    jbytes(&mut o, b);
    o
}

impl Runner {
    fn file(&self, n: &str) -> PathBuf { self.dir.join(n) }
    fn emit(&mut self, s: String) {
        self.out.write_all(s.as_bytes()).unwrap();
        self.out.write_all(b"\n").unwrap();
    }
    /// the encoding, by whatever entry point gives one
    fn vec(&self, ti: usize, v: &dyn Any, e: E) -> WOut {
        let f = self.file("w");
        let a = WArgs { sched: Sched::All, fault: None, zero: false, file: &f, bufsize: None };
        let o = (self.list[ti].write)(v, WMode::Vec, e, &a);
        if o.s == "ok" || !WMode::ALL.contains(&WMode::Stream) { o } else { (self.list[ti].write)(v, WMode::Stream, e, &a) }
    }
    /// about how long inputs of a type may become
    fn cap(&self, ti: usize) -> usize { if self.list[ti].has("plain,bytes,prim") { 2000 } else { 400 } }
    fn schema(&mut self, ti: usize) -> std::rc::Rc<crate::guided::J> {
        let l = &self.list;
        self.schemas.entry(ti).or_insert_with(|| std::rc::Rc::new(crate::guided::J::parse(&(l[ti].schema)()))).clone()
    }

    // ------------------------------------------------------------------ writing
    fn enc(&mut self, id: u64, ti: usize, e: E, r: &mut Rng, full: bool) {
        let f = self.file("w");
        let v = (self.list[ti].gen)(r);
        let val = (self.list[ti].val)(&*v);
        self.pend.set(&format!("{{\"k\":\"crash\",\"id\":{},\"t\":{},\"e\":\"{}\",\"job\":\"enc\",\"v\":{}}}", id, ti + 1, e.s(), val));
        let mut g = Group::default();
        let w = self.list[ti].write;
        let mut sched = Sched::All;
        for m in WMode::ALL {
            if !full && m != WMode::Vec && m != WMode::Stream {
                continue;
            }
            let reps = if m == WMode::Stream && full { 3 } else { 1 };
            for k in 0..reps {
                if m == WMode::Stream && k > 0 {
                    sched = Sched::random(r);
                }
                if m == WMode::File {
                    match r.below(4) {
                        0 => { let _ = std::fs::remove_file(&f); }
                        1 => std::fs::write(&f, b"").unwrap(),
                        _ => { let n = r.below(20000); std::fs::write(&f, vec![0x77u8; n]).unwrap() }
                    }
                }
                let o = w(&*v, m, e, &WArgs { sched: sched.clone(), fault: None, zero: false, file: &f, bufsize: None });
                g.add(wbody(&o), m.s().into());
            }
        }
        let need = (self.list[ti].need)(&*v);
        let mut bufs = Vec::new();
        if full && need.s == "ok" {
            let n = need.sizes.0 as usize;
            let mut sizes = vec![n, n + 1, n + 1 + r.below(40)];
            if n > 0 {
                sizes.push(n - 1);
                sizes.push(0);
                sizes.push(r.below(n));
            }
            for s in sizes {
                let m = if r.chance(1, 2) { WMode::Buf } else { WMode::BufMut };
                let o = w(&*v, m, e, &WArgs { sched: Sched::All, fault: None, zero: false, file: &f, bufsize: Some(s) });
                bufs.push(format!("{{\"z\":{},\"s\":\"{}\",\"c\":{},\"b\":{},\"un\":{},\"act\":{},\"exp\":{}}}",
                                  s, o.s, jstr(&o.c), jb(&o.b), o.untouched, o.sizes.0, o.sizes.1));
            }
        }
        let s = format!("{{\"k\":\"enc\",\"id\":{},\"t\":{},\"e\":\"{}\",\"v\":{},\"w\":{},\"need\":{{\"s\":\"{}\",\"c\":{},\"n\":{}}},\"bufs\":[{}]}}",
                        id, ti + 1, e.s(), val, g.json(), need.s, jstr(&need.c), need.sizes.0, bufs.join(","));
        self.emit(s);
    }
    /// a sink that fails after every number of bytes
    fn sflt(&mut self, id: u64, ti: usize, e: E, r: &mut Rng) {
        let f = self.file("w");
        let v = (self.list[ti].gen)(r);
        let w = self.list[ti].write;
        let full = self.vec(ti, &*v, e);
        if full.s != "ok" {
            return;
        }
        self.pend.set(&format!("{{\"k\":\"crash\",\"id\":{},\"t\":{},\"e\":\"{}\",\"job\":\"sflt\",\"v\":{}}}", id, ti + 1, e.s(), (self.list[ti].val)(&*v)));
        let n = full.b.len();
        let mut runs = Vec::new();
        let mut ats: Vec<usize> = (0..n.min(12)).collect();
        for _ in 0..4 {
            ats.push(r.below(n + 2));
        }
        ats.push(n);
        ats.push(n.saturating_sub(1));
        ats.sort();
        ats.dedup();
        let kinds = [std::io::ErrorKind::Other, std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::WouldBlock,
                     std::io::ErrorKind::PermissionDenied, std::io::ErrorKind::InvalidData, std::io::ErrorKind::TimedOut];
        for at in ats {
            let kind = *r.pick(&kinds);
            let zero = r.chance(1, 4);
            let fault = Fault { at, kind, payload: 1000 + at as u32, os: if r.chance(1, 3) { *r.pick(&[5, 13, 28, 32, 104, 110, 11, 77]) } else { 0 }, once: r.chance(1, 2) };
            let sched = Sched::random(r);
            let o = w(&*v, WMode::Stream, e, &WArgs { sched, fault: Some(fault.clone()), zero, file: &f, bufsize: None });
            runs.push(format!("{{\"at\":{},\"kd\":{},\"zero\":{},\"s\":\"{}\",\"c\":{},\"want\":{},\"pl\":{},\"ipl\":{},\"b\":{}}}",
                              at, jstr(&fault.class()), zero, o.s, jstr(&o.c), if zero { -1 } else { fault.mark() }, o.payload, o.io_payload, jb(&o.b)));
        }
        // a device without room
        if r.chance(1, 2) {
            let o = w(&*v, WMode::File, e, &WArgs { sched: Sched::All, fault: None, zero: false, file: std::path::Path::new("/dev/full"), bufsize: None });
            runs.push(format!("{{\"at\":0,\"kd\":\"io:StorageFull\",\"zero\":false,\"s\":\"{}\",\"c\":{},\"want\":1000028,\"pl\":{},\"ipl\":{},\"b\":[]}}", o.s, jstr(&o.c), o.payload, o.io_payload));
        }
        let s = format!("{{\"k\":\"sflt\",\"id\":{},\"t\":{},\"e\":\"{}\",\"full\":{},\"runs\":[{}]}}", id, ti + 1, e.s(), jb(&full.b), runs.join(","));
        self.emit(s);
    }

    // ------------------------------------------------------------------ reading
    fn describe(&mut self, id: u64, ti: usize, e: E, job: &str, input: &[u8], m: &str) {
        let s = format!("{{\"k\":\"crash\",\"id\":{},\"t\":{},\"e\":\"{}\",\"job\":\"{}\",\"m\":\"{}\",\"in\":{}}}", id, ti + 1, e.s(), job, m, jb(input));
        self.pend.set(&s);
    }
    /// Reads the input through the given modes; extra: what else to put into the record.
    fn read_all(&mut self, id: u64, ti: usize, e: E, k: &str, bytes: &[u8], r: &mut Rng, modes: &[RMode], reps: usize, extra: &str) {
        let align = if r.chance(1, 3) { -1 } else { r.below(16) as isize };
        let input = self.arena.place(bytes, align);
        let al = (input.as_ptr() as usize % 16) as u64;
        let f = self.file("r");
        let read = self.list[ti].read;
        let (mut g, mut ns, mut bo, mut pk) = (Group::default(), Vec::new(), Vec::new(), Vec::new());
        let mut aux = Group::default();
        for m in modes {
            if *m == RMode::File {
                std::fs::write(&f, input).unwrap();
            }
            let stream = *m == RMode::Su || *m == RMode::Sb;
            for rep in 0..if stream { reps } else { 1 } {
                let sched = if stream && rep > 0 { Sched::random(r) } else { Sched::All };
                self.describe(id, ti, e, k, input, m.s());
                let o = read(*m, e, &RArgs { input, sched, fault: None, file: &f });
                g.add(rbody(&o), m.s().into());
                if o.s == "err" {
                    aux.add(format!("\"c\":{},\"eof\":{},\"io\":{},\"act\":{},\"exp\":{},\"told\":{}", jstr(&o.c), o.eof, jstr(&o.io), o.sizes.0, o.sizes.1, o.told), m.s().into());
                }
                if o.s == "ok" {
                    if o.n >= 0 { ns.push(format!("[\"{}\",{}]", m.s(), o.n)); }
                    if o.taken >= 0 && *m == RMode::Su { ns.push(format!("[\"su\",{}]", o.taken)); }
                    for b in &o.bo {
                        bo.push(format!("{{\"m\":\"{}\",\"off\":{},\"len\":{},\"al\":{},\"sz\":{},\"kd\":{},\"pr\":{}}}",
                                        m.s(), b[0], b[1], b[2], b[3], b[4], b[5]));
                    }
                }
                if o.peak > 1 << 20 {
                    pk.push(format!("[\"{}\",{}]", m.s(), o.peak.min(1 << 30)));
                }
            }
        }
        let s = format!("{{\"k\":\"{}\",\"id\":{},\"t\":{},\"e\":\"{}\",\"in\":{},\"al\":{},\"outs\":{},\"ns\":[{}],\"bo\":[{}],\"pk\":[{}],\"aux\":{}{}}}",
                        k, id, ti + 1, e.s(), jb(input), al, g.json(), ns.join(","), bo.join(","), pk.join(","), aux.json(), extra);
        self.emit(s);
    }
    fn rt(&mut self, id: u64, ti: usize, e: E, r: &mut Rng) {
        let v = (self.list[ti].gen)(r);
        let val = (self.list[ti].val)(&*v);
        let w = self.vec(ti, &*v, e);
        if w.s != "ok" {
            let s = format!("{{\"k\":\"rtw\",\"id\":{},\"t\":{},\"e\":\"{}\",\"v\":{},\"s\":\"{}\",\"c\":{}}}", id, ti + 1, e.s(), val, w.s, jstr(&w.c));
            self.emit(s);
            return;
        }
        let tail: Vec<u8> = if r.chance(1, 3) { vec![] } else { (0..1 + r.below(9)).map(|_| if r.chance(1, 2) { 0 } else { r.next() as u8 }).collect() };
        let mut b = w.b.clone();
        b.extend_from_slice(&tail);
        let modes = self.modes.clone();
        self.read_all(id, ti, e, "rt", &b, r, &modes, 2, &format!(",\"v\":{},\"bl\":{}", val, w.b.len()));
    }
    fn make_input(&mut self, ti: usize, e: E, r: &mut Rng, src: &str) -> Option<Vec<u8>> {
        if src == "rand" {
            let n = r.below(24);
            let small = r.chance(2, 3);
            return Some((0..n).map(|_| if small { r.below(4) as u8 } else { r.int() as u8 }).collect());
        }
        let cap = self.cap(ti);
        if src == "guided" {
            let t = self.schema(ti);
            return Some(crate::guided::make(&t, e, r, cap));
        }
        let mut found = None;
        for _ in 0..4 {
            let v = (self.list[ti].gen)(r);
            let w = self.vec(ti, &*v, e);
            if w.s == "ok" && w.b.len() <= cap {
                found = Some(w.b);
                break;
            }
        }
        let mut b = found?;
        match src {
            "valid" => {
                for _ in 0..r.below(3) { b.push(r.next() as u8); }
            }
            "prefix" => {
                if b.is_empty() { return None; }
                // favour cuts close to the end
                let n = b.len();
                let k = if r.chance(1, 3) { 1 } else { 1 + r.below(n) };
                b.truncate(n - k);
            }
            "mut" => {
                if b.is_empty() { return None; }
                for _ in 0..1 + r.below(3) {
                    let n = b.len();
                    if n == 0 { break; }
                    // mostly the front, where lengths and tags are
                    let i = if r.chance(1, 2) { r.below(n.min(8)) } else { r.below(n) };
                    match r.below(10) {
                        0 => b[i] = 0,
                        1 => b[i] = 0xff,
                        2 => b[i] = b[i].wrapping_add(1),
                        3 => b[i] = b[i].wrapping_sub(1),
                        4 => b[i] ^= 1 << r.below(8),
                        5 => b[i] = r.next() as u8,
                        6 => { b.remove(i); }
                        7 => b.insert(i, r.next() as u8),
                        8 => b.truncate(n - r.below(n.min(5))),
                        _ => b[i] = *r.pick(&[0x80, 0xC0, 0xED, 0xF8, 0x7f, 0xDC, 2, 3]),
                    }
                }
            }
            "len" => {
                // a big number somewhere near the front
                b.truncate(60);
                if r.chance(1, 2) { b.truncate(r.below(14)); }
                let mut big: Vec<u8> = match r.below(12) {
                    0 | 1 | 2 => vec![0xff, 0xff, 0xff, 0x7f],
                    3 => vec![0xff, 0xff, 0xff, 0xff],
                    4 => vec![0x00, 0x00, 0x00, 0x20],
                    5 => vec![0x00, 0xff],
                    6 => vec![0, 0, 0, 0, 0, 0, 0, 0x10 << r.below(4)],
                    7 => vec![0xff; 8],
                    8 => vec![0, 0, 0, 0x10 + r.next() as u8 % 64, 0, 0, 0, 0],
                    9 => vec![0, 0, 0, 0, 1 << r.below(8), 0, 0, 0],
                    10 => vec![0xff, 0, 0, 0, 0, 0, 0, 0, 0x10 << r.below(4)],
                    _ => vec![0xf0 | r.next() as u8, r.next() as u8, 0xff, 0xff, 0xff],
                };
                if e == E::Be && r.chance(7, 8) { big.reverse(); }
                let i = if r.chance(1, 2) { 0 } else { r.below(b.len().min(16) + 1) };
                while b.len() < i + big.len() { b.push(r.below(3) as u8); }
                b[i..i + big.len()].copy_from_slice(&big);
            }
            _ => panic!("source {}", src),
        }
        Some(b)
    }
    fn dec(&mut self, id: u64, ti: usize, e: E, r: &mut Rng, reps: usize) {
        let src = self.srcs[r.below(self.srcs.len())].clone();
        if let Some(b) = self.make_input(ti, e, r, &src) {
            let modes = self.modes.clone();
            self.read_all(id, ti, e, "dec", &b, r, &modes, reps, &format!(",\"src\":\"{}\"", src));
        }
    }
    /// every prefix of one encoding
    fn trunc(&mut self, id: u64, ti: usize, e: E, r: &mut Rng) {
        let v = (self.list[ti].gen)(r);
        let w = self.vec(ti, &*v, e);
        if w.s != "ok" || w.b.is_empty() {
            return;
        }
        let n = w.b.len();
        let mut cuts: Vec<usize> = if n <= 24 { (0..n).collect() } else {
            let mut c: Vec<usize> = (0..8).chain(n - 8..n).collect();
            for _ in 0..8 { c.push(r.below(n)); }
            c
        };
        cuts.sort();
        cuts.dedup();
        let f = self.file("r");
        let read = self.list[ti].read;
        let mut runs = Vec::new();
        let mut modes = self.modes.clone();
        for c in cuts {
            let input = self.arena.place(&w.b[..c], if r.chance(1, 2) { -1 } else { r.below(16) as isize });
            let mut g = Group::default();
            modes.rotate_left(1);
            for m in modes.clone() {
                if m == RMode::File {
                    if !r.chance(1, 4) { continue; }
                    std::fs::write(&f, input).unwrap();
                }
                self.describe(id, ti, e, "trunc", input, m.s());
                let sched = if r.chance(1, 2) { Sched::All } else { Sched::random(r) };
                let o = read(m, e, &RArgs { input, sched, fault: None, file: &f });
                g.add(format!("\"s\":\"{}\",\"c\":{},\"eof\":{}", o.s, jstr(&o.c), o.eof), m.s().into());
            }
            runs.push(format!("{{\"n\":{},\"outs\":{}}}", c, g.json()));
        }
        let min = (self.list[ti].min)().map(|x| x.min(1 << 30) as i64).unwrap_or(-1);
        let s = format!("{{\"k\":\"trunc\",\"id\":{},\"t\":{},\"e\":\"{}\",\"b\":{},\"min\":{},\"runs\":[{}]}}", id, ti + 1, e.s(), jb(&w.b), min, runs.join(","));
        self.emit(s);
    }
    /// a source that fails at every position
    fn flt(&mut self, id: u64, ti: usize, e: E, r: &mut Rng) {
        let v = (self.list[ti].gen)(r);
        let w = self.vec(ti, &*v, e);
        if w.s != "ok" {
            return;
        }
        let n = w.b.len();
        let mut ats: Vec<usize> = (0..n.min(12)).collect();
        for _ in 0..4 { ats.push(r.below(n + 2)); }
        ats.push(n);
        ats.push(n.saturating_sub(1));
        ats.sort();
        ats.dedup();
        let kinds = [std::io::ErrorKind::Other, std::io::ErrorKind::ConnectionReset, std::io::ErrorKind::WouldBlock,
                     std::io::ErrorKind::PermissionDenied, std::io::ErrorKind::InvalidData, std::io::ErrorKind::TimedOut,
                     std::io::ErrorKind::InvalidInput, std::io::ErrorKind::BrokenPipe];
        let f = self.file("r");
        let read = self.list[ti].read;
        let input = self.arena.place(&w.b, 0);
        let mut runs = Vec::new();
        for at in ats {
            let kind = *r.pick(&kinds);
            for m in [RMode::Su, RMode::Sb] {
                self.describe(id, ti, e, "flt", input, m.s());
                let fault = Fault { at, kind, payload: 500 + at as u32, os: if r.chance(1, 3) { *r.pick(&[5, 13, 28, 32, 104, 110, 11, 2, 77]) } else { 0 }, once: r.chance(1, 2) };
                let o = read(m, e, &RArgs { input, sched: Sched::random(r), fault: Some(fault.clone()), file: &f });
                runs.push(format!("{{\"m\":\"{}\",\"at\":{},\"kd\":{},\"want\":{},\"pl\":{},\"ipl\":{},\"io\":{},\"tk\":{},{}}}", m.s(), at, jstr(&fault.class()), fault.mark(), o.payload, o.io_payload, jstr(&o.io), o.taken, rbody(&o)));
            }
        }
        let s = format!("{{\"k\":\"flt\",\"id\":{},\"t\":{},\"e\":\"{}\",\"in\":{},\"runs\":[{}]}}", id, ti + 1, e.s(), jb(input), runs.join(","));
        self.emit(s);
    }
    /// what becomes of the parts
    fn life(&mut self, id: u64, ti: usize, e: E, r: &mut Rng) {
        let hollow = self.list[ti].has("hollow");
        let mut b = vec![];
        for _ in 0..6 {
            let v = (self.list[ti].gen)(r);
            let w = self.vec(ti, &*v, e);
            if w.s == "ok" && w.b.len() <= 300 { b = w.b; if b.len() > 1 || r.chance(1, 4) { break; } }
        }
        let mut zfail = (u64::MAX, 0u8);
        if hollow {
            if r.chance(3, 4) { zfail = (1 + r.below(5) as u64, 1 + r.below(2) as u8) }
            if r.chance(1, 4) { let n = b.len(); b.truncate(r.below(n + 1)) }
        } else {
            let n = b.len();
            for _ in 0..r.below(4) {
                if n == 0 { break }
                let i = r.below(n);
                match r.below(8) {
                    0 | 1 => b[i] = 0xE0 + r.below(16) as u8,
                    2 | 3 => b[i] = 0xF0 + r.below(16) as u8,
                    4 | 5 => b[i] = b[r.below(n)],
                    6 => b[i] = r.next() as u8,
                    _ => {}
                }
            }
            match r.below(5) { 0 | 1 => b.truncate(r.below(n + 1)), 2 => b.push(r.next() as u8), _ => {} }
        }
        let input = self.arena.place(&b, r.below(16) as isize);
        let al = input.as_ptr() as usize % 16;
        let f = self.file("r");
        let read = self.list[ti].read;
        let mut g = Group::default();
        for m in self.modes.clone() {
            if m == RMode::File { std::fs::write(&f, input).unwrap(); }
            let stream = m == RMode::Su || m == RMode::Sb;
            for rep in 0..if stream { 2 } else { 1 } {
                let sched = if rep > 0 { Sched::random(r) } else { Sched::All };
                self.describe(id, ti, e, "life", input, m.s());
                crate::life::reset(zfail);
                let o = read(m, e, &RArgs { input, sched, fault: None, file: &f });
                let (log, own) = crate::life::take();
                g.add(format!("{},\"ev\":{:?},\"own\":{:?}", rbody(&o), log, own), m.s().into());
            }
        }
        let s = format!("{{\"k\":\"life\",\"id\":{},\"t\":{},\"e\":\"{}\",\"in\":{},\"al\":{},\"zf\":[{},{}],\"outs\":{}}}", id, ti + 1, e.s(), jb(input), al, zfail.0.min(1 << 30), zfail.1, g.json());
        self.emit(s);
    }
    /// what the parts of a value see of the context
    fn ctx(&mut self, id: u64, ti: usize, e: E, r: &mut Rng) {
        let src = r.pick(&self.srcs.clone()).clone();
        let bytes = match self.make_input(ti, e, r, &src) { Some(b) => b, None => return };
        let input = self.arena.place(&bytes, r.below(16) as isize);
        let al = input.as_ptr() as usize % 16;
        let f = self.file("r");
        std::fs::write(&f, input).unwrap();
        let start = r.below(1000) as u64;
        let read = self.list[ti].read;
        let mut g = Group::default();
        for m in self.modes.clone() {
            let stream = m == RMode::Su || m == RMode::Sb;
            for rep in 0..if stream { 2 } else { 1 } {
                let sched = if rep > 0 { Sched::random(r) } else { Sched::All };
                self.describe(id, ti, e, "ctx", input, m.s());
                crate::tick::reset(start);
                let o = read(m, e, &RArgs { input, sched, fault: None, file: &f });
                g.add(format!("{},\"pl\":{},{}", rbody(&o), o.payload, crate::tick::json()), m.s().into());
            }
        }
        let s = format!("{{\"k\":\"ctx\",\"id\":{},\"t\":{},\"e\":\"{}\",\"in\":{},\"al\":{},\"start\":{},\"outs\":{}}}", id, ti + 1, e.s(), jb(input), al, start, g.json());
        self.emit(s);
    }
    fn ctxw(&mut self, id: u64, ti: usize, e: E, r: &mut Rng) {
        let v = (self.list[ti].gen)(r);
        let val = (self.list[ti].val)(&*v);
        self.pend.set(&format!("{{\"k\":\"crash\",\"id\":{},\"t\":{},\"e\":\"{}\",\"job\":\"ctxw\",\"v\":{}}}", id, ti + 1, e.s(), val));
        let f = self.file("w");
        let start = r.below(1000) as u64;
        let write = self.list[ti].write;
        let mut g = Group::default();
        for m in WMode::ALL {
            crate::tick::reset(start);
            let sched = if m == WMode::Stream && r.chance(1, 2) { Sched::random(r) } else { Sched::All };
            let _ = std::fs::remove_file(&f);
            let o = write(&*v, m, e, &WArgs { sched, fault: None, zero: false, file: &f, bufsize: None });
            g.add(format!("{},\"pl\":{},{}", wbody(&o), o.payload, crate::tick::json()), m.s().into());
        }
        let s = format!("{{\"k\":\"ctxw\",\"id\":{},\"t\":{},\"e\":\"{}\",\"v\":{},\"start\":{},\"w\":{}}}", id, ti + 1, e.s(), val, start, g.json());
        self.emit(s);
    }
    /// a collection with a chosen, possibly large number of elements
    fn lim(&mut self, id: u64, ti: usize, e: E, r: &mut Rng) {
        let t = self.schema(ti);
        let (t, deep) = if t.get("k").s() == "struct" {
            let fs = t.get("fs").a();
            if fs.len() != 1 || !fs[0].get("pre").a().is_empty() || fs[0].get("skip").t() { return }
            (fs[0].get("t").clone(), 2)
        } else { ((*t).clone(), 1) };
        let lt = match t.opt("lt") { Some(l) => l.get("l").s().to_string(), None => return };
        if lt == "x" { return }
        let k = t.get("k").s();
        let w = if k == "str" || k == "rstr" { 1 } else { match t.opt("t") { Some(x) if x.get("k").s() == "int" && k != "set" => x.get("w").n(), _ => 0 } };
        let mut ns: Vec<usize> = vec![0, 1, 126, 127, 128, 129, 255, 256, 257];
        let edges: &[usize] = match lt.as_str() {
            "u7" => &[127, 128, 128, 255, 256],
            "u8" => &[254, 255, 256, 257, 512],
            "u16" => if w > 0 { &[65534, 65535, 65536, 65536, 65537] } else { &[65535, 65536] },
            "varint" => &[126, 127, 128, 129, 16383, 16384],
            _ => &[255, 256, 257, 1023, 1025],
        };
        for _ in 0..3 { ns.extend(edges) }
        if w > 0 { ns.extend([1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 65535, 65536, 65537]) }
        // whole pages
        if w > 0 { for p in [4096, 8192, 16384] { ns.push((p - 4) / w as usize); ns.push(p / w as usize) } }
        if w == 1 && lt == "varint" { ns.extend([2097151, 2097152]) }
        let n = *r.pick(&ns);
        crate::model::LIM.with(|l| l.set(Some(n)));
        let v = (self.list[ti].gen)(r);
        crate::model::LIM.with(|l| l.set(None));
        let val = (self.list[ti].val)(&*v);
        // elements as they are counted
        let (mut d, mut n, mut empty) = (0, 0u64, true);
        for c in val.bytes() {
            match c {
                b'[' => { if d == deep { empty = false } d += 1 }
                b']' => d -= 1,
                b',' => if d == deep { n += 1 },
                _ => if d == deep { empty = false },
            }
        }
        if !empty { n += 1 }
        self.pend.set(&format!("{{\"k\":\"crash\",\"id\":{},\"t\":{},\"e\":\"{}\",\"job\":\"lim\",\"n\":{}}}", id, ti + 1, e.s(), n));
        let f = self.file("w");
        let loose = { let s = (self.list[ti].schema)(); s.contains("\"set\"") || s.contains("\"map\"") };
        let need = (self.list[ti].need)(&*v);
        let mut samples = vec![];
        let (mut g, mut all, mut backs) = (Group::default(), vec![], Group::default());
        for m in WMode::ALL {
            let o = (self.list[ti].write)(&*v, m, e, &WArgs { sched: if m == WMode::Stream { Sched::random(r) } else { Sched::All }, fault: None, zero: false, file: &f, bufsize: None });
            let same = all.is_empty() || o.s != "ok" || o.b == all;
            if o.s == "ok" && all.is_empty() { all = o.b.clone() }
            g.add(format!("\"s\":\"{}\",\"c\":{},\"len\":{},\"head\":{},\"same\":{}", o.s, jstr(&o.c), o.b.len(), jb(&o.b[..o.b.len().min(12)]), same), m.s().into());
        }
        if w > 0 && !all.is_empty() && n > 0 && all.len() >= n as usize {
            // some elements, and where they are in the encoding
            let w = w as usize;
            let flat: Vec<u8> = val.split(|c| c == '[' || c == ']' || c == ',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            assert!(flat.len() == n as usize, "{} {}", flat.len(), n);
            let at = all.len() - flat.len();
            let k = flat.len() / w;
            for j in 0..16 {
                let i = match j { 0 => 0, 1 => k - 1, 2 => k / 2, 3..=6 => (1 << (7 + r.below(10))) / w, 7..=9 => ((1 << (7 + r.below(10))) / w).max(1) - 1, _ => r.below(k) };
                if i < k { samples.push(format!("[{},{}]", jb(&flat[i * w..i * w + w]), jb(&all[at + i * w..at + i * w + w]))) }
            }
        }
        if !all.is_empty() && all.len() + 64 <= 4 << 20 {
            let cut = r.chance(1, 4);
            if cut { all.pop(); }
            else { let extra = r.below(3); for _ in 0..extra { all.push(7) } }
            let input = self.big.place(&all, r.below(16) as isize);
            for m in RMode::ALL {
                let f = self.file("r");
                if m == RMode::File { std::fs::write(&f, input).unwrap() }
                let o = (self.list[ti].read)(m, e, &RArgs { input, sched: if r.chance(1, 2) { Sched::All } else { Sched::random(r) }, fault: None, file: &f });
                let s = if o.s == "ok" { if o.v == val { "ok" } else if loose { if o.v.len() == val.len() { "ok" } else { "other" } } else { "other" } } else { o.s };
                let took = if m == RMode::Su { o.taken } else { o.n };
                backs.add(format!("\"s\":\"{}\",\"c\":{},\"cut\":{},\"n\":{}", s, jstr(if o.s == "ok" { "" } else { &o.c }), cut, if o.s == "ok" { took } else { -1 }), m.s().into());
            }
        }
        let s = format!("{{\"k\":\"lim\",\"id\":{},\"t\":{},\"e\":\"{}\",\"n\":{},\"w\":{},\"need\":{},\"samples\":[{}],\"outs\":{},\"backs\":{}}}",
                        id, ti + 1, e.s(), n, w, if need.s == "ok" { need.sizes.0 } else { -1 }, samples.join(","), g.json(), backs.json());
        self.emit(s);
    }
    /// several values, back to back in one stream or buffer
    fn seq(&mut self, id: u64, ti: usize, _e: E, r: &mut Rng) {
        let k = 2 + r.below(3);
        let mut parts = Vec::new();
        let mut all = Vec::new();
        for i in 0..k {
            let tj = if i == 0 { ti } else { r.below(self.list.len()) };
            let e = *r.pick(self.list[tj].es);
            let v = (self.list[tj].gen)(r);
            let w = self.vec(tj, &*v, e);
            if w.s != "ok" || w.b.len() > 300 { continue; }
            all.extend_from_slice(&w.b);
            parts.push((tj, e, (self.list[tj].val)(&*v), w.b.len()));
        }
        if parts.is_empty() {
            return;
        }
        let input = self.arena.place(&all, r.below(16) as isize);
        let f = self.file("r");
        let mut runs = Vec::new();
        for m in [RMode::Su, RMode::Zc, RMode::Cp] {
            let mut pos = 0;
            let mut outs = Vec::new();
            for (tj, e, _, _) in &parts {
                self.describe(id, *tj, *e, "seq", &input[pos..], m.s());
                let o = (self.list[*tj].read)(m, *e, &RArgs { input: &input[pos..], sched: Sched::random(r), fault: None, file: &f });
                let n = if m == RMode::Su { o.taken } else { o.n };
                outs.push(format!("{{\"n\":{},{}}}", n, rbody(&o)));
                if o.s != "ok" || n < 0 || n as usize > input.len() - pos { break; }
                pos += n as usize;
            }
            runs.push(format!("{{\"m\":\"{}\",\"outs\":[{}]}}", m.s(), outs.join(",")));
        }
        let ps: Vec<String> = parts.iter().map(|(t, e, v, n)| format!("{{\"t\":{},\"e\":\"{}\",\"v\":{},\"n\":{}}}", t + 1, e.s(), v, n)).collect();
        let s = format!("{{\"k\":\"seq\",\"id\":{},\"t\":{},\"parts\":[{}],\"in\":{},\"runs\":[{}]}}", id, ti + 1, ps.join(","), jb(input), runs.join(","));
        self.emit(s);
    }
}

pub fn main(list: Vec<TypeOps>) {
    let a = Args::get();
    match a.str("cmd").unwrap_or("") {
        "types" => {
            println!("[");
            for (i, t) in list.iter().enumerate() {
                let min = (t.min)().map(|x| x.min(1 << 30) as i64).unwrap_or(-1);
                println!("{{\"name\":{},\"tags\":{},\"min\":{},\"size\":{},\"t\":{}}}{}", jstr(t.name), jstr(t.tags), min, t.size_of, (t.schema)(),
                         if i + 1 < list.len() { "," } else { "" });
            }
            println!("]");
        }
        "run" => run(list, &a),
        c => panic!("unknown command {:?}", c),
    }
}
fn run(list: Vec<TypeOps>, a: &Args) {
    std::panic::set_hook(Box::new(|_| ()));
    let dir = PathBuf::from(a.str("dir").unwrap());
    std::fs::create_dir_all(&dir).unwrap();
    let job = a.str("job").unwrap().to_string();
    let tags = a.str("tags").unwrap_or("*").to_string();
    let not = a.str("not").unwrap_or("-").to_string();
    let (shard, shards, skip) = (a.num("shard", 0), a.num("shards", 1), a.num("skip", 0));
    let types: Option<Vec<usize>> = a.str("types").map(|x| x.split(',').map(|y| y.parse().unwrap()).collect());
    let only = a.str("only").map(|x| x.parse::<u64>().unwrap());
    let modes: Vec<RMode> = match a.str("modes") {
        None => RMode::ALL.to_vec(),
        Some(s) => s.split(',').map(|m| *RMode::ALL.iter().find(|x| x.s() == m).unwrap()).collect(),
    };
    let f = std::fs::OpenOptions::new().create(true).append(true).open(a.str("out").unwrap()).unwrap();
    let mut x = Runner {
        list,
        out: std::io::BufWriter::new(f),
        pend: Pending::new(dir.join("pending").to_str().unwrap()),
        dir,
        arena: Arena::new(1 << 20),
        big: Arena::new(8 << 20),
        seed: a.num("seed", 1),
        n: a.num("n", 4) as usize,
        modes,
        srcs: a.str("src").unwrap_or("valid").split(',').map(|s| s.to_string()).collect(),
        deep: false,
        schemas: Default::default(),
    };
    watchdog(a.num("watch", 30));
    if let Some(l) = a.str("limit") {
        set_alloc_limit(l.parse().unwrap());
    }
    let mut id = 0u64;
    let ntypes = x.list.len();
    for ti in 0..ntypes {
        if let Some(l) = &types {
            if !l.contains(&(ti + 1)) {
                continue;
            }
        }
        if !x.list[ti].has(&tags) || (not != "-" && x.list[ti].has(&not)) {
            continue;
        }
        for e in x.list[ti].es {
            for i in 0..x.n {
                id += 1;
                if id % shards != shard || id <= skip || only.map_or(false, |o| o != id) {
                    continue;
                }
                next_case();
                let mut r = Rng::new(x.seed.wrapping_mul(1000003) ^ hash_str(x.list[ti].name) ^ hash_str(&job) ^ ((i as u64) << 20) ^ (*e as u64) << 50);
                x.pend.set(&format!("{{\"k\":\"crash\",\"id\":{},\"t\":{},\"e\":\"{}\",\"job\":\"{}\"}}", id, ti + 1, e.s(), job));
                match job.as_str() {
                    "enc" => x.enc(id, ti, *e, &mut r, true),
                    "encs" => x.enc(id, ti, *e, &mut r, false),
                    "sflt" => x.sflt(id, ti, *e, &mut r),
                    "rt" => x.rt(id, ti, *e, &mut r),
                    "dec" => x.dec(id, ti, *e, &mut r, 1),
                    "sched" => x.dec(id, ti, *e, &mut r, 5),
                    "trunc" => x.trunc(id, ti, *e, &mut r),
                    "flt" => x.flt(id, ti, *e, &mut r),
                    "life" => x.life(id, ti, *e, &mut r),
                    "ctx" => x.ctx(id, ti, *e, &mut r),
                    "ctxw" => x.ctxw(id, ti, *e, &mut r),
                    "lim" => x.lim(id, ti, *e, &mut r),
                    "seq" => x.seq(id, ti, *e, &mut r),
                    j => panic!("unknown job {}", j),
                }
                x.out.flush().unwrap();
            }
        }
    }
    x.pend.set("{}");
}
